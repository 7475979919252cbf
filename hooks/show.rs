// C07-C10: what the display code shows, against independent descriptions of what it may show
use super::vkit::{Ctx, Rng, esc};
use crate::ui::{stdio::verif as st, verif as ui};
use clang_time_trace::{ActivityArgument, ClangTrace, ParsedActivityArgument, CustomDisplay, DisplayState, Symbol};
use std::str::FromStr;
use unicode_segmentation::UnicodeSegmentation;
use unicode_width::UnicodeWidthStr;

const PIECES: &[&str] = &["a", "b", "Z", "_", "0", " ", "::", "<", ">", "é", "e\u{301}", "漢", "字", "ﾊ", "한", "\u{1112}\u{1161}\u{11ab}", "👩", "👩‍🔬", "🇫🇷", "🇫", "\u{200d}", "\u{fe0f}", "☁", "☁\u{fe0f}",
    "#\u{fe0f}\u{20e3}", "\u{0301}", "…", "—", "ß", "\u{200b}", "ا", "ل", "لا", "ª", "\u{ad}", "𝄞", "क्षि", "\u{3000}", "~", "operator()", "std", "vector", "👨‍👩‍👧", "👍🏽", "\u{1f3fd}", "\u{fe0e}", "☺\u{fe0e}"];
pub fn text(r: &mut Rng, max: usize, avoid: &[char]) -> String {
    let n = r.below(max + 1);
    let mode = r.below(4);
    let mut s = String::new();
    for _ in 0..n {
        match mode {
            0 => s.push((b'a' + r.below(26) as u8) as char),
            1 => s.push_str(r.pick(PIECES)),
            2 => { if r.chance(1, 5) { s.push_str(r.pick(PIECES)) } else { s.push((b' ' + r.below(95) as u8) as char) } }
            _ => { let c = match r.below(5) { 0 => r.below(0x3000) as u32, 1 => 0x3000 + r.below(0x8000) as u32, 2 => 0x1f000 + r.below(0x1000) as u32, 3 => 0x20 + r.below(0x5f) as u32, _ => r.below(0x110000) as u32 };
                if let Some(c) = char::from_u32(c) { s.push(c) } }
        }
    }
    s.retain(|c| !c.is_control() && c != '\u{2028}' && c != '\u{2029}' && !avoid.contains(&c));
    s
}
fn wsum(g: &[&str]) -> usize { g.iter().map(|x| x.width()).sum() }
/// the only text that may be shown for s in that many columns
fn string_shown(s: &str, cols: usize) -> String {
    if s.width() <= cols { return s.into(); }
    let g: Vec<&str> = s.graphemes(true).collect();
    let mut i = 0;
    while i < g.len() && wsum(&g[..i + 1]) <= (cols - 1) / 2 { i += 1 }
    let rest = cols - 1 - wsum(&g[..i]);
    let mut j = g.len();
    while j > 0 && wsum(&g[j - 1..]) <= rest { j -= 1 }
    format!("{}…{}", g[..i].concat(), g[j..].concat())
}
fn check_string(s: &str, cols: u16) -> Result<(), String> {
    let t = ui::string(s, Some(cols));
    let e = string_shown(s, cols as usize);
    if t != e { return Err(format!("shown as {t:?} in {cols} columns, expected {e:?}")); }
    if t.width() > cols as usize { return Err(format!("{t:?} takes {} columns instead of at most {cols}", t.width())); }
    if ui::string(s, None) != s { return Err("altered although there is no limit".into()); }
    Ok(())
}
pub fn c07(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(60_000, 2_000_000) {
        if ctx.done() { break; }
        let s = { let max = [3, 8, 20, 60][r.below(4)]; text(&mut r, max, &[]) };
        let w = s.width();
        let cols = match r.below(5) { 0 => w, 1 => w.saturating_sub(1), 2 => w + 1, _ => r.below(w + 3) }.clamp(1, 65535) as u16;
        ctx.case(|| format!("{s:?} (width {w}) in {cols} columns"), |c| {
            if w > cols as usize { c.hit("shortened") } else { c.tally("shown in full") }
            if s.graphemes(true).any(|g| g.width() == 0) { c.tally("zero-width graphemes") }
            if s.graphemes(true).any(|g| g.width() >= 2) { c.tally("wide graphemes") }
            // what the proof takes for granted about widths
            let g: Vec<&str> = s.graphemes(true).collect();
            let (i, j) = (g.len() / 3, g.len() - g.len() / 4);
            if g[i..j].concat().width() > wsum(&g[i..j]) { c.tally("AXIOM broken: a run is wider than its graphemes") }
            if format!("{}…{}", g[..i].concat(), g[j..].concat()).width() > g[..i].concat().width() + 1 + g[j..].concat().width() { c.tally("AXIOM broken: an ellipsis widens its surroundings") }
            check_string(&s, cols)
        });
    }
}
fn trace(events: &str) -> ClangTrace { ClangTrace::from_str(&json(events)).unwrap() }
pub fn json(events: &str) -> String {
    format!(r#"{{"traceEvents":[{events}{{"pid":1,"tid":0,"ph":"M","ts":0,"cat":"","name":"process_name","args":{{"name":"clang"}}}}]}}"#)
}
pub fn event(name: &str, ts: f64, dur: f64, detail: Option<&str>) -> String {
    let args = detail.map(|d| format!(r#""detail":{}"#, esc(d))).unwrap_or_default();
    format!(r#"{{"pid":1,"tid":0,"ph":"X","ts":{ts},"dur":{dur},"name":{},"args":{{{args}}}}},"#, esc(name))
}
fn segment(r: &mut Rng) -> String {
    loop {
        let s = match r.below(6) { 0 => "include".into(), 1 => "a".repeat(1 + r.below(30)), 2 => format!("{}.hpp", text(r, 12, &['/'])), 3 => (*r.pick(&["usr", "lib", "c++", "12", "x"])).to_string(), _ => text(r, 14, &['/']) };
        if !s.is_empty() && s != "." && s != ".." { return s; }
    }
}
fn front(c: &[String], f: usize) -> String { c[..f].iter().map(|x| if x == "/" { x.clone() } else { format!("{x}/") }).collect() }
fn back(c: &[String], k: usize) -> String { c[k..].iter().map(|x| format!("/{x}")).collect() }
fn fcost(c: &[String], f: usize) -> usize { c[..f].iter().map(|x| x.width() + (x != "/") as usize).sum() }
fn bcost(c: &[String], k: usize) -> usize { c[k..].iter().map(|x| x.width() + 1).sum() }
/// may t be shown for the path with these components?
fn path_ok(c: &[String], cols: usize, t: &str) -> Result<&'static str, String> {
    let full = if c.len() == 1 { c[0].clone() } else { back(c, 1) };
    if t.width() > cols { return Err(format!("{t:?} takes {} columns instead of at most {cols}", t.width())); }
    let file = c.last().unwrap();
    if c.len() == 1 || 1 + file.width() + 1 <= cols {
        let spare = (c.len() == 2 || c[1..].iter().any(|s| s.width() == 0)) as usize;
        if fcost(c, 1) + bcost(c, 1) + spare <= cols + 1 && t != full { return Err(format!("{t:?} is abridged although {full:?} fits")); }
        if t == full { return Ok("path in full"); }
        for f in 0..c.len() { for b in 1..c.len() - f {
            if t != format!("{}…{}", front(c, f), back(c, c.len() - b)) { continue; }
            let used = fcost(c, f) + bcost(c, c.len() - b) + 1;
            let more = |u: usize| f + b + 1 < c.len() && u <= cols;
            if used <= cols && !more(fcost(c, f + 1) + bcost(c, c.len() - b) + 1) && !more(fcost(c, f) + bcost(c, c.len() - b - 1) + 1) { return Ok("whole segments"); }
        } }
        return Err(format!("{t:?} is not made of as many whole segments of {full:?} as fit {cols} columns"));
    }
    if cols < 17 { return if t == "…" { Ok("ellipsis") } else { Err(format!("{t:?} instead of an ellipsis")) }; }
    let g: Vec<&str> = file.graphemes(true).collect();
    // the longest beginning that takes at most half of the columns left by "…/" and "…", then the longest end that takes at most what
    // the beginning left, which does not include the first character that did not fit at the beginning
    let w = |g: &[&str]| g.iter().map(|x| x.width()).sum::<usize>();
    let (n, half) = (g.len(), (cols - 3) / 2);
    let i = (0..=n).take_while(|&i| w(&g[..i]) <= half).last().unwrap();
    let rest = cols - 3 - w(&g[..i]);
    let j = ((i + 1).min(n)..=n).rev().take_while(|&j| w(&g[j..]) <= rest).last().unwrap();
    let want = format!("…/{}…{}", g[..i].concat(), g[j..].concat());
    if t == want { Ok("file name shortened in the middle") } else { Err(format!("{t:?} instead of {want:?}")) }
}
pub fn c08(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(6_000, 200_000) {
        if ctx.done() { break; }
        let n = if r.chance(1, 12) { 0 } else { 1 + { let m = [2, 5, 9][r.below(3)]; r.below(m) } };
        let mut comps = vec!["/".to_string()];
        for _ in 0..n { comps.push(segment(&mut r)) }
        let p = if n == 0 { "/".to_string() } else { back(&comps, 1) };
        let w = p.width() as u16;
        let seed = r.next();
        ctx.case(|| format!("path {p:?} (width {w})"), |c| {
            let mut t = trace(&event("Source", 10.0, 5.0, Some(&p)));
            let a = t.all_activities().next().unwrap().activity().raw_argument().clone();
            let a = a.parse(&mut t).map_err(|e| e.to_string())?;
            let ActivityArgument::FilePath(ip) = a.resolve(&t) else { return Err("not parsed as a path".into()) };
            let got: Vec<String> = ip.components().map(|x| x.value().to_string()).collect();
            if got != comps { return Err(format!("components {got:?} instead of {comps:?}")); }
            if ui::path(&ip, None) != p { return Err(format!("shown as {:?} without a limit", ui::path(&ip, None))); }
            let mut r = Rng::new(seed);
            let lens: Vec<u16> = if w < 60 { (1..=w + 2).collect() } else { (0..40).map(|_| r.range(1, w as usize + 2) as u16).collect() };
            for cols in lens { c.hit(path_ok(&comps, cols as usize, &ui::path(&ip, Some(cols))).map_err(|e| format!("in {cols} columns: {e}"))?); }
            Ok(())
        });
    }
}
fn entity(r: &mut Rng, depth: usize) -> String {
    let id = |r: &mut Rng| (*r.pick(&["a", "std", "vector", "x1", "Foo", "__gnu_cxx", "basic_string", "T", "is_same", "detail"])).to_string();
    let ty = |r: &mut Rng, d: usize| match r.below(6) { 0 => "int".to_string(), 1 => "const char*".into(), 2 => "unsigned long".into(), 3 => "bool &".into(), _ => entity(r, d) };
    let mut s = String::new();
    for k in 0..1 + r.below(3) {
        if k > 0 { s += "::" }
        s += &id(r);
        if depth > 0 && r.chance(1, 2) {
            let n = r.below(4);
            let a: Vec<String> = (0..n).map(|_| match r.below(5) { 0 => format!("{}", r.below(100)), 1 => "true".into(), _ => ty(r, depth - 1) }).collect();
            s += &format!("<{}>", a.join(", "));
        }
    }
    s
}
fn arg_shown(a: &ActivityArgument, cols: Option<u16>) -> String {
    match a {
        ActivityArgument::Nothing => unreachable!(),
        ActivityArgument::UnnamedLoop => cols.map_or("<unnamed loop>".into(), |c| string_shown("<unnamed loop>", c as usize)),
        ActivityArgument::Module => cols.map_or("[module]".into(), |c| string_shown("[module]", c as usize)),
        ActivityArgument::String(s) | ActivityArgument::Symbol(Symbol::Demangled(s)) | ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => cols.map_or(s.to_string(), |c| string_shown(s, c as usize)),
        ActivityArgument::FilePath(p) => ui::path(p, cols),
        ActivityArgument::CppEntity(e) | ActivityArgument::Symbol(Symbol::Parsed(e)) => {
            let full = format!("{}", e.display(&DisplayState::default()));
            let Some(c) = cols else { return full };
            // the deepest display before the first one that does not fit
            let mut best = "…".to_string();
            for d in 0..=e.recursion_depth() {
                let t = format!("{}", e.display(&DisplayState::new(d)));
                if t.width() > c as usize { return best; }
                best = t;
            }
            if best == full { best } else { format!("{full} (as the whole entity fits)") }
        }
    }
}
pub fn described(name: &str, a: &ActivityArgument, cols: Option<u16>) -> String {
    if matches!(a, ActivityArgument::Nothing) { return name.into(); }
    format!("{name}({})", arg_shown(a, cols.map(|c| c - name.width() as u16 - 2)))
}
fn activity(r: &mut Rng) -> (&'static str, Option<String>) {
    match r.below(10) {
        0 => ("Frontend", None),
        1 => ("LoopRotatePass", Some("<unnamed loop>".into())),
        2 => ("OptModule", Some("[module]".into())),
        3 => ("RunPass", Some(format!("P{}", text(r, 30, &[])))),
        4 => ("Source", Some({ let n = 1 + r.below(6); (0..n).map(|_| format!("/{}", segment(r))).collect() })),
        5 => ("SROAPass", Some((*r.pick(&["main", "__cxx_global_var_init.1", "_ZN3foo3barEi", "_ZNSt6vectorIiSaIiEE9push_backERKi", "_ZSt3maxIiERKT_S2_S2_", "_Zwrong", "_ZN1aIN1bIN1cIiEEEEE1dEv"])).into())),
        6 => ("InlinerPass", if r.chance(1, 2) { None } else { Some("_ZN3foo3barEi".into()) }),
        _ => (*r.pick(&["ParseClass", "InstantiateFunction", "DebugType"]), Some(entity(r, 4))),
    }
}
pub fn c09(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(2_500, 60_000) {
        if ctx.done() { break; }
        let (name, detail) = activity(&mut r);
        let (dur, norm) = (match r.below(4) { 0 => 0.0, 1 => r.below(1000) as f64, 2 => r.below(100_000_000) as f64, _ => r.unit() * 1e12 }, 1.0 / (1.0 + r.unit() * 1e9));
        let seed = r.next();
        ctx.case(|| format!("{name}({detail:?}) taking {dur}us of {}", 1.0 / norm), |c| {
            let mut t = trace(&event(name, 10.0, 5.0, detail.as_deref()));
            let id = t.all_activities().next().unwrap().id();
            let raw = t.activity_trace(id).activity().raw_argument().clone();
            let Ok(parsed) = raw.parse(&mut t) else { c.tally("argument not understood"); return Ok(()) };
            let arg = parsed.resolve(&t);
            let tr = t.activity_trace(id);
            let aid = tr.activity().id();
            if aid.name() != name { return Err(format!("named {:?}", aid.name())); }
            let info = st::info(dur, norm);
            let exp = format!(" [{}, {:.2}%]", ui::duration(dur), dur * norm * 100.0);
            if info != exp { return Err(format!("profiling numbers {info:?}, expected {exp:?}")); }
            let whole = described(name, &arg, None);
            match ui::desc(aid, &arg, None) { Ok((s, true)) if s == whole => {} o => return Err(format!("shown as {o:?} without a limit, expected {whole:?}")) }
            let need = name.width() + if matches!(arg, ActivityArgument::Nothing) { 0 } else { 3 };
            let top = whole.width() + info.width() + 3;
            let mut r = Rng::new(seed);
            let lens: Vec<u16> = if top < 60 { (1..=top as u16).collect() } else { (0..60).map(|k| if k < 30 { 1 + k } else { r.range(1, top) as u16 }).collect() };
            for cols in lens {
                match ui::desc(aid, &arg, Some(cols)) {
                    Ok((s, w)) => {
                        let e = if need > cols as usize { "nothing".into() } else { described(name, &arg, Some(cols)) };
                        if w || s != e { return Err(format!("{cols} columns: {s:?}, expected {e:?}")); }
                        if s.width() > cols as usize { return Err(format!("{s:?} takes {} columns instead of {cols}", s.width())); }
                    }
                    Err((s, k)) => if need <= cols as usize || !s.is_empty() || k != cols { return Err(format!("{cols} columns: refused ({k}) after writing {s:?}")) },
                }
                let s = st::activity(aid, &arg, cols, dur, norm);
                let left = cols as usize as i64 - info.width() as i64;
                let e = if need as i64 <= left { c.hit("with profiling numbers"); format!("{}{info}", described(name, &arg, Some(left as u16))) }
                    else if need <= cols as usize { c.hit("without profiling numbers"); described(name, &arg, Some(cols)) } else { c.tally("ellipsis"); "…".into() };
                if s != e { return Err(format!("{cols} columns: {s:?}, expected {e:?}")); }
                if s.width() > cols as usize { return Err(format!("{s:?} takes {} columns instead of {cols}", s.width())); }
            }
            Ok(())
        });
    }
}
fn two(s: &str) -> Result<u32, String> { if s.len() == 2 && s.bytes().all(|b| b.is_ascii_digit()) { Ok(s.parse().unwrap()) } else { Err(format!("{s:?} is not a two-digit field")) } }
fn sec(s: &str) -> Result<f64, String> { if s.len() == 5 && s.as_bytes()[2] == b'.' && two(&s[..2]).is_ok() && two(&s[3..]).is_ok() { let v: f64 = s.parse().unwrap(); if v < 60.0 { return Ok(v); } } Err(format!("{s:?} are not seconds below a minute")) }
fn duration_ok(x: f64, t: &str) -> Result<&'static str, String> {
    let near = |v: f64, tol: f64| if (v - x).abs() <= tol * (1.0 + 1e-9) + x * 1e-15 { Ok(()) } else { Err(format!("{t:?} stands for {v}us")) };
    let below = |n: u32, m: u32, what: &str| if n < m { Ok(()) } else { Err(format!("{t:?} has {n} {what}")) };
    let plain = |s: &str| if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && (s == "0" || !s.starts_with('0')) { s.parse::<u64>().map_err(|e| e.to_string()) } else { Err(format!("{s:?} in {t:?} is not a number")) };
    const HMS: &str = "days, hours, minutes and seconds";
    if x >= 86_399_995_000.0 {
        let (d, rest) = t.split_once("d ").ok_or(format!("{t:?} has no days"))?;
        let d = plain(d)?;
        let f: Vec<&str> = rest.split(':').collect();
        if f.len() != 3 { return Err(format!("{t:?} has no {HMS}")); }
        let (h, m, s) = (two(f[0])?, two(f[1])?, sec(f[2])?);
        below(h, 24, "hours")?; below(m, 60, "minutes")?;
        if d == 0 { return Err(format!("{t:?} has no full day")); }
        near((d as f64 * 86400.0 + h as f64 * 3600.0 + m as f64 * 60.0 + s) * 1e6, 10_000.0)?;
        return Ok("days");
    }
    let f: Vec<&str> = t.split(':').collect();
    if x >= 3_599_995_000.0 {
        if f.len() != 3 { return Err(format!("{t:?} is not hours, minutes and seconds")); }
        let (h, m, s) = (plain(f[0])?, two(f[1])?, sec(f[2])?);
        below(h as u32, 24, "hours")?; below(m, 60, "minutes")?;
        if h == 0 { return Err(format!("{t:?} has no full hour")); }
        near((h as f64 * 3600.0 + m as f64 * 60.0 + s) * 1e6, 10_000.0)?;
        return Ok("hours");
    }
    if x >= 59_995_000.0 {
        if f.len() != 2 { return Err(format!("{t:?} is not minutes and seconds")); }
        let (m, s) = (plain(f[0])?, sec(f[1])?);
        below(m as u32, 60, "minutes")?;
        if m == 0 { return Err(format!("{t:?} has no full minute")); }
        near((m as f64 * 60.0 + s) * 1e6, 10_000.0)?;
        return Ok("minutes");
    }
    let number = |suffix: &str| t.strip_suffix(suffix).and_then(|n| if n.bytes().all(|b| b.is_ascii_digit() || b == b'.') { n.parse::<f64>().ok() } else { None }).ok_or(format!("{t:?} is not in {suffix}"));
    let two_decimals = |suffix: &str| if t.strip_suffix(suffix).map_or(false, |n| n.len() >= 4 && n.as_bytes()[n.len() - 3] == b'.') { Ok(()) } else { Err(format!("{t:?} has no two decimals")) };
    if x >= 999_995.0 && !(x < 999_995.1 && t.ends_with("ms")) {
        if t.ends_with("ms") { return Err(format!("{t:?} is not in seconds")); }
        let v = number("s")?; two_decimals("s")?;
        if v >= 60.0 { return Err(format!("{t:?} has a full minute")); }
        near(v * 1e6, 5_000.0)?; return Ok("seconds");
    }
    if x >= 1000.0 {
        let v = number("ms")?; two_decimals("ms")?;
        if v > 1000.0 { return Err(format!("{t:?} has a full second")); }
        near(v * 1e3, 5.0)?; return Ok("milliseconds");
    }
    near(number("µs")?, 0.0)?;
    Ok("microseconds")
}
pub fn c10(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    const LIM: f64 = 9007199254740992.0;
    for _ in 0..ctx.n(300_000, 20_000_000) {
        if ctx.done() { break; }
        let unit = *r.pick(&[1e0, 1e3, 1e6, 6e7, 3.6e9, 8.64e10]);
        let x = match r.below(6) {
            0 => (r.unit() * 53.0).exp2(),
            1 => r.below(2_000_000) as f64,
            2 => unit * r.below(if unit > 1e10 { 1000 } else { 100 }) as f64 + (r.unit() - 0.5) * 20_000.0,
            3 => unit * (1 + r.below(61)) as f64 - [0.0, 1.0, 4999.0, 5000.0, 5001.0, 0.01, 4999.99, 10_000.0][r.below(8)],
            4 => { let (d, h, m, s) = (r.below(5) as f64, [0, 1, 22, 23][r.below(4)] as f64, [0, 1, 58, 59][r.below(4)] as f64, [0.0, 0.004, 59.99, 59.994, 59.995, 59.996, 59.9999, 0.005][r.below(8)]);
                ((d * 24.0 + h) * 60.0 + m) * 60e6 + s * 1e6 }
            _ => r.unit() * 1e8,
        };
        let x = if r.chance(1, 3) { x.floor() } else { x };
        if !(0.0..LIM).contains(&x) { continue; }
        ctx.case(|| format!("{x} microseconds"), |c| { let k = duration_ok(x, &ui::duration(x))?; c.hit(k); Ok(()) });
    }
}
/// days since 1970-01-01 to (year, month, day)
fn civil(z: i64) -> (i64, i64, i64) {
    let (mut y, mut d) = (1970 + z.div_euclid(146_097) * 400, z.rem_euclid(146_097));
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    while d >= if leap(y) { 366 } else { 365 } { d -= if leap(y) { 366 } else { 365 }; y += 1; }
    let mut m = 1;
    for n in [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] { if d < n { break; } d -= n; m += 1; }
    (y, m, d + 1)
}
/// the RFC 3339 date of so many microseconds since 1970, if it has one
fn date(us: f64) -> Option<String> {
    if !(us.abs() < 1e18) { return None; }
    let us = us.trunc() as i64;
    let (secs, frac) = (us.div_euclid(1_000_000), us.rem_euclid(1_000_000));
    let (y, m, d) = civil(secs.div_euclid(86_400));
    if !(0..=9999).contains(&y) { return None; }
    let s = secs.rem_euclid(86_400);
    let f = format!(".{frac:06}");
    let f = f.trim_end_matches('0').trim_end_matches('.');
    Some(format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}{f}Z", s / 3600, s / 60 % 60, s % 60))
}
pub fn c13(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(25_000, 500_000) {
        if ctx.done() { break; }
        let process = { let max = [0, 3, 12, 40][r.below(4)]; text(&mut r, max, &[]) };
        let pid = *r.pick(&[1, 0, -3, 2, 5884, i32::MAX]);
        let thread = r.chance(2, 3).then(|| { let max = [0, 3, 12, 40][r.below(4)]; let mut s = text(&mut r, max, &[]); if r.chance(1, 6) { s.push_str(*r.pick(&["\n", "\"", "\\", "\t", "'"])); } s });
        let begin = r.chance(3, 4).then(|| match r.below(6) {
            0 => 1_656_508_703_311_015.0, 1 => (r.below(4_000_000_000) as f64) * 1e6, 2 => r.unit() * 3e15, 3 => *r.pick(&[0.0, 0.5, 1e300, 253402300799999999.0, 253402300800000000.0, -62167219200000000.0, -62167219200000001.0 - 1.0, 951_782_400_000_000.0, 4107542400000000.0, 1e20]),
            4 => -r.unit() * 6e16, _ => r.unit() * 3e17 });
        let mut ev = format!(r#"{{"pid":{pid},"tid":{pid},"ph":"M","ts":0,"cat":"","name":"process_name","args":{{"name":{}}}}}"#, esc(&process));
        if let Some(t) = &thread { ev += &format!(r#",{{"pid":{pid},"tid":{pid},"ph":"M","ts":0,"cat":"","name":"thread_name","args":{{"name":{}}}}}"#, esc(t)); }
        let b = begin.map_or(String::new(), |b: f64| format!(r#","beginningOfTime":{b:?}"#));
        let json = format!(r#"{{"traceEvents":[{ev}]{b}}}"#);
        let total = process.width() + thread.as_ref().map_or(0, |t| t.len()) + 60;
        let cols = match r.below(4) { 0 => 1 + r.below(12), 1 => 10 + process.width() + r.below(3), 2 => 30 + r.below(20), _ => 1 + r.below(total) }.clamp(1, 65535);
        ctx.case(|| format!("process {process:?} {pid} thread {thread:?} begin {begin:?} in {cols} columns"), |c| {
            let t = ClangTrace::from_str(&json).map_err(|e| format!("rejected: {e} {json}"))?;
            let got = ui::metadata(&t, cols as u16);
            let m = cols - 1;
            let first = format!("Data from {process}");
            let want = if first.width() > m { c.tally("nothing fits"); "…".to_string() } else {
                let mut items = Vec::new();
                if pid > 1 { items.push(format!("pid {pid}")); }
                if let Some(n) = &thread { items.push(format!("thread {n:?}")); }
                if let Some(d) = t.beginning_of_time().and_then(date) { items.push(format!("recorded {d}")); c.tally("dated"); }
                let (mut s, mut w) = (first.clone(), first.width());
                for e in items {
                    let e = if e.width() > m { c.hit("abbreviated"); "…".into() } else { e };
                    if w + 2 + e.width() > m { s += ",\n"; w = e.width(); c.hit("new line") } else { s += ", "; w += 2 + e.width(); c.hit("same line") }
                    s += &e;
                }
                s + "."
            };
            if got != want { return Err(format!("shown as {got:?}, expected {want:?}")); }
            if let Some(l) = got.split('\n').find(|l| l.width() > cols) { return Err(format!("line {l:?} takes {} columns", l.width())); }
            Ok(())
        });
    }
}

/// one node of the trace as the command-line program should see it
struct Node { text: Vec<String>, name: String, dur: f64, own: f64, kids: Vec<usize> }
/// printed tree
struct Shown { text: String, kids: Vec<Shown> }
/// random forest, in the order in which clang lists activities
pub fn forest(r: &mut Rng, start: usize, len: usize, depth: usize, names: usize, out: &mut String) {
    if depth > 0 && out.len() < 30_000 {
        let n = [0, 1, 2, 3, 6][r.below(5)];
        let mut cuts: Vec<usize> = (0..2 * n).map(|_| start + r.below(len + 1)).collect();
        if r.chance(1, 3) { let step = len / (n + 1); cuts = (0..n).flat_map(|k| [start + k * step, start + (k + 1) * step]).collect(); }
        cuts.sort();
        for c in cuts.chunks(2) { forest(r, c[0], c[1] - c[0], depth - 1, names, out) }
    }
    let mut q = Rng::new(if r.chance(1, 2) { r.below(names) as u64 } else { r.next() });
    let (name, detail) = match q.below(14) {
        0 => ("Source", Some("relative/x.h".to_string())), 1 => ("ParseClass", Some("a<<<((".into())), 2 => ("LoopRotatePass", Some("not a loop".into())), _ => activity(&mut q) };
    out.push_str(&event(name, start as f64, len as f64, detail.as_deref()));
}
struct Run { nodes: Vec<Node>, roots: Vec<usize>, norm: f64, cols: u16, threshold: f64, header: String, types: Vec<String>, flat: Vec<String>, trees: String }
const TITLES: [&str; 3] = ["\nSelf-duration breakdown by activity type:\n", "\nHottest activities by self-duration:\n", "\nHierarchical profile:\n"];
fn profile(events: &str, cols: u16, percent: &str, of_self: bool, file: &std::path::Path) -> Result<Run, String> {
    let json = json(events);
    let mut t = ClangTrace::from_str(&json).map_err(|e| format!("rejected: {e}"))?;
    let total: f64 = t.root_activities().map(|a| a.duration()).sum();
    let norm = 1.0 / total;
    let ids: Vec<_> = t.all_activities().map(|a| a.id()).collect();
    let index = |t: &ClangTrace, a: clang_time_trace::ActivityTraceId| t.all_activities().position(|b| b.id() == a).unwrap();
    let shown = cols.max(3);
    let mut nodes = Vec::new();
    for &id in &ids {
        let raw = t.activity_trace(id).activity().raw_argument().clone();
        let detail = raw.detail();
        let p = raw.parse(&mut t).unwrap_or_else(|_| detail.map_or(ParsedActivityArgument::Nothing, ParsedActivityArgument::String));
        let arg = p.resolve(&t);
        let a = t.activity_trace(id);
        // what may be shown on the flat profile and in the tree
        let mut text = vec![st::activity(a.activity().id(), &arg, shown - 2, a.self_duration(), norm)];
        let (mut depth, mut up) = (0, id);
        while let Some(b) = t.activity_trace(up).parent().map(|b| b.id()) { up = b; depth += 1 }
        let left = (shown as usize).saturating_sub(2 * depth);
        if left > 0 { text.push(st::activity(a.activity().id(), &arg, left as u16, a.duration(), norm)) }
        nodes.push(Node { text, name: a.activity().name().into(), dur: a.duration(), own: a.self_duration(), kids: a.direct_children().map(|b| index(&t, b.id())).collect() });
    }
    let roots = t.root_activities().map(|b| index(&t, b.id())).collect();
    let header = format!("\n{}\n", ui::metadata(&t, shown));
    std::fs::write(file, &json).map_err(|e| e.to_string())?;
    let (s, h) = if of_self { (percent, "0.5") } else { ("0.5", percent) };
    let out = std::process::Command::new(std::env::current_exe().unwrap()).env_remove("CROFILER_ORACLE").env_remove("RUST_LOG").stdin(std::process::Stdio::null())
        .args(["--ui", "stdio", "-c", &cols.to_string(), &format!("--self-threshold={s}"), &format!("--hierarchical-threshold={h}")]).arg(file).output().map_err(|e| e.to_string())?;
    if !out.status.success() { return Err(format!("the program ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr))); }
    let text = String::from_utf8(out.stdout).map_err(|e| e.to_string())?;
    let mut parts = Vec::new();
    let mut rest = &text[..];
    for (k, title) in TITLES.iter().enumerate() {
        let Some(i) = rest.find(title) else { return Err(format!("no section {title:?} in {text:?}")) };
        if rest[i + title.len()..].contains(title) { return Err(format!("two sections {title:?} in {text:?}")); }
        parts.push(&rest[..i]);
        rest = &rest[i + title.len()..];
        let _ = k;
    }
    let lines = |s: &str| s.strip_suffix('\n').map_or(vec![], |s| s.split('\n').map(String::from).collect::<Vec<_>>());
    Ok(Run { nodes, roots, norm, cols: shown, threshold: percent.parse::<f32>().unwrap() as f64 / 100.0, header, types: [vec![parts[0].to_string()], lines(parts[1])].concat(), flat: lines(parts[2]), trees: rest.to_string() })
}
/// are these lines the ones of the items, in decreasing order, in any order among equals?
fn same_lines(got: &[String], items: &mut Vec<(f64, String)>) -> Result<(), String> {
    items.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap().then(a.1.cmp(&b.1)));
    if got.len() != items.len() { return Err(format!("{} lines instead of {}: {got:?}, expected {items:?}", got.len(), items.len())); }
    let mut i = 0;
    while i < items.len() {
        let mut j = i;
        while j < items.len() && items[j].0 == items[i].0 { j += 1 }
        let mut g = got[i..j].to_vec();
        g.sort();
        for (g, e) in g.iter().zip(&items[i..j]) { if *g != e.1 { return Err(format!("{g:?} instead of {:?}", e.1)); } }
        i = j;
    }
    Ok(())
}
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(what: &str) -> Self { let d = std::env::temp_dir().join(format!("crofiler-verif-{what}-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); Scratch(d) }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn profiles(ctx: &mut Ctx, n: u64, of_self: bool, check: fn(&Run, &mut Ctx) -> Result<(), String>) {
    let mut r = Rng::new(ctx.seed);
    let dir = Scratch::new(if of_self { "c14" } else { "c15" });
    for _ in 0..n {
        if ctx.done() { break; }
        let mut events = String::new();
        let (mut at, names, depth) = (2 + r.below(1000), 1 + r.below(40), [1, 2, 3, 4, 8][r.below(5)]);
        for k in 0..1 + r.below(4) {
            let len = [100, 1000, 12_345, 3_000_000, 100_000_000][r.below(5)] + (k == 0) as usize;
            forest(&mut r, at, len, depth, names, &mut events);
            at += len + r.below(3) * r.below(100);
            if events.len() > 40_000 { break; }
        }
        let cols = match r.below(5) { 0 => r.below(8), 1 => 3 + r.below(30), 2 => 20 + r.below(60), 3 => 200, _ => 1 + r.below(300) } as u16;
        let percent = *r.pick(&["0", "0.5", "0.01", "1", "2.5", "5", "10", "33.3", "50", "100", "200", "-1"]);
        ctx.case(|| format!("{cols} columns, threshold {percent}%, events {events}"), |c| {
            let p = profile(&events, cols, percent, of_self, &dir.0.join("trace.json"))?;
            check(&p, c)
        });
    }
}
pub fn c14(ctx: &mut Ctx) {
    let n = ctx.n(3_000, 60_000);
    profiles(ctx, n, true, |p, c| {
        if p.types[0] != p.header { return Err(format!("header {:?}, expected {:?}", p.types[0], p.header)); }
        let below = |n: usize, what: &str| format!("- ... and {n} other {what} below {:.2}% ...", p.threshold * 100.0);
        let mut sums: Vec<(String, f64)> = Vec::new();
        for n in &p.nodes { match sums.iter_mut().find(|s| s.0 == n.name) { Some(s) => s.1 += n.own, None => sums.push((n.name.clone(), n.own)) } }
        let shown: Vec<_> = sums.iter().filter(|s| !(s.1 * p.norm < p.threshold)).collect();
        let rest = sums.len() - shown.len();
        let mut items: Vec<_> = shown.iter().map(|s| (s.1, format!("- {}{}", s.0, st::info(s.1, p.norm)))).collect();
        if shown.len() > 1 { c.hit("several types") }
        if rest > 0 { c.tally("types below the threshold"); items.push((-1e300, below(rest, "activity types"))); }
        same_lines(&p.types[1..], &mut items).map_err(|e| format!("types: {e}"))?;
        let mut items: Vec<_> = p.nodes.iter().filter(|n| n.own * p.norm >= p.threshold).map(|n| (n.own * p.norm, format!("- {}", n.text[0]))).collect();
        let rest = p.nodes.len() - items.len();
        if rest > 0 { c.tally("activities below the threshold"); items.push((-1e300, below(rest, "activities"))); }
        same_lines(&p.flat, &mut items).map_err(|e| format!("activities: {e}"))?;
        for n in &p.nodes { if n.text[0].width() + 2 > p.cols as usize { return Err(format!("{:?} is too wide", n.text[0])); } }
        Ok(())
    });
}
/// the trees that these lines show
fn parse_tree(lines: &[&str], at: &mut usize, depth: usize) -> Result<Vec<Shown>, String> {
    let mut out = Vec::new();
    while *at < lines.len() {
        let (mut s, mut d) = (lines[*at], 0);
        while let Some(t) = ["├─", "└─", "│ ", "  "].iter().find_map(|g| s.strip_prefix(g)) { s = t; d += 1; }
        if d < depth { break; }
        if d > depth { return Err(format!("line {:?} is too deep", lines[*at])); }
        *at += 1;
        let kids = parse_tree(lines, at, depth + 1)?;
        out.push(Shown { text: s.to_string(), kids });
    }
    Ok(out)
}
fn render(t: &Shown, prefix: &str, out: &mut String) {
    for (k, c) in t.kids.iter().enumerate() {
        let last = k + 1 == t.kids.len();
        *out += &format!("{prefix}{}{}\n", if last { "└─" } else { "├─" }, c.text);
        render(c, &format!("{prefix}{}", if last { "  " } else { "│ " }), out);
    }
}
fn tree_ok(p: &Run, n: usize, depth: usize, s: &Shown, c: &mut Ctx) -> Result<(), String> {
    let e = &p.nodes[n];
    let left = (p.cols as usize).saturating_sub(2 * depth);
    if Some(&s.text) != e.text.get(1) { return Err(format!("{:?} instead of {:?}", s.text, e.text.get(1))); }
    if left <= 2 { c.tally("no room for callees"); return if s.kids.is_empty() { Ok(()) } else { Err("callees without room".into()) }; }
    let mut hot: Vec<usize> = e.kids.iter().copied().filter(|&k| p.nodes[k].dur * p.norm >= p.threshold).collect();
    let rest = e.kids.len() - hot.len();
    if s.kids.len() != hot.len() + (rest > 0) as usize { return Err(format!("{} callees below {:?} instead of {}", s.kids.len(), s.text, hot.len() + (rest > 0) as usize)); }
    if rest > 0 {
        let full = format!("…{rest} callee(s) below {:.2}%…", p.threshold * 100.0);
        let want = if full.width() > left - 2 { c.tally("callees left out"); "…".to_string() } else { c.hit("callees counted"); full };
        let last = s.kids.last().unwrap();
        if last.text != want || !last.kids.is_empty() { return Err(format!("{:?} instead of {want:?}", last.text)); }
    }
    hot.sort_by(|&a, &b| p.nodes[b].dur.partial_cmp(&p.nodes[a].dur).unwrap());
    if hot.len() > 1 { c.hit("several callees") }
    let key = |k: usize| p.nodes[k].dur * p.norm;
    let mut i = 0;
    while i < hot.len() {
        let mut j = i;
        while j < hot.len() && key(hot[j]) == key(hot[i]) { j += 1 }
        any_order(p, &hot[i..j], depth + 1, &s.kids[i..j], &mut vec![false; j - i], c)?;
        i = j;
    }
    Ok(())
}
fn any_order(p: &Run, hot: &[usize], depth: usize, kids: &[Shown], used: &mut Vec<bool>, c: &mut Ctx) -> Result<(), String> {
    if kids.is_empty() { return Ok(()); }
    let mut e = Err("?".to_string());
    for k in 0..hot.len() {
        if used[k] { continue; }
        match tree_ok(p, hot[k], depth, &kids[0], c) { Ok(()) => {}, x => { e = x; continue } }
        used[k] = true;
        match any_order(p, hot, depth, &kids[1..], used, c) { Ok(()) => return Ok(()), x => e = x }
        used[k] = false;
    }
    e
}
pub fn c15(ctx: &mut Ctx) {
    let n = ctx.n(3_000, 60_000);
    profiles(ctx, n, false, |p, c| {
        let mut rest = &p.trees[..];
        if p.roots.len() > 1 { c.hit("several roots") }
        for &root in &p.roots {
            let Some(i) = rest.find("\n\n") else { return Err(format!("no blank line in {rest:?}")) };
            let lines: Vec<&str> = rest[..i].split('\n').collect();
            let shown = parse_tree(&lines, &mut 0, 0)?;
            if shown.len() != 1 { return Err(format!("{} trees in {:?}", shown.len(), &rest[..i])); }
            let mut again = format!("{}\n", shown[0].text);
            render(&shown[0], "", &mut again);
            if again != rest[..i + 1] { return Err(format!("shown as {:?}, expected {again:?}", &rest[..i + 1])); }
            if let Some(l) = lines.iter().find(|l| l.width() > p.cols as usize) { return Err(format!("{l:?} takes more than {} columns", p.cols)); }
            tree_ok(p, root, 0, &shown[0], c)?;
            rest = &rest[i + 2..];
        }
        if !rest.is_empty() { return Err(format!("{rest:?} after the trees")); }
        Ok(())
    });
}
