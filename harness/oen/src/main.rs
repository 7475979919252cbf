mod bones;
mod model;
mod spell;
use cpparser::{display::{CustomDisplay, DisplayState}, EntityParser};
use model::*;
use vkit::{Ctx, Rng};
fn c22(ctx: &mut Ctx) {
    let n = ctx.n(120000, 1500000);
    let mut g = Rng::new(ctx.seed);
    for _ in 0..n {
        if ctx.done() { break }
        let fuel = 2 + g.below(40) as isize;
        let node = Gen { g: &mut g, fuel, noparen: false }.entity();
        let text = shown(&node, usize::MAX);
        ctx.case(|| text.clone(), |c| {
            let mut p = EntityParser::new();
            let key = match p.parse_entity(&text) { Ok(k) => k, Err(e) => return Err(format!("does not parse: {e}")) };
            { let v = p.entity(key);
            let got = v.to_string();
            if got != text { return Err(format!("shown as {got}")) }
            let d = v.recursion_depth();
            if d == 0 { c.tally("nothing to elide") } else { c.hit(match d { 1 => "depth 1", 2 => "depth 2", 3 => "depth 3", 4 => "depth 4", _ => "depth 5 and more" }) }
            for (w, part) in [("template parameters", "<"), ("scopes", "::"), ("function parameters", "("), ("lambdas", "{lambda"), ("operators", "operator"), ("new expressions", "new("), ("ternaries", " ? "), ("array declarators", "["), ("trailing return types", " -> "), ("noexcept expressions", "noexcept("), ("variadic functions", "...)"), ("attributes", "__attribute__")] { if text.contains(part) { c.tally(w) } }
            for r in 0..=d.max(depth(&node)) + 1 {
                let (got, want) = (v.display(&DisplayState::new(r)).to_string(), shown(&node, r));
                if got != want { return Err(format!("at depth {r}: {got}, not {want}")) }
            }
            if d != depth(&node) { return Err(format!("announces depth {d}, not {}", depth(&node))) } }
            Ok(())
        });
    }
}
/// fragments that C++ names are made of, and some that they are not
const SOUP: &[&str] = &["a", "b", "new", "delete", "operator", "const", "volatile", "int", "long", "unsigned", "char", "double", "_Complex", "decltype(", "sizeof(", "declval(", "noexcept", "typename ", "class ", "auto:", "__vector(", "__attribute__((",
    "(", ")", "<", ">", "[", "]", "{", "}", "::", ",", ", ", "...", "*", "&", "&&", "+", "-", "->", "=", "!", "~", "?", " : ", "/", "%", "^", "|", ".", " ", "\t", "\n", "0", "1", "-9223372036854775809", "18446744073709551616", "4294967296", "'", "'a'", "'\\n'", "'\\777'", "'\\xD800'", "'\\xFFFFFFFFF'", "\"\"", "\"\" _km", "(lambda at /a:1:2)",
    "(lambda at a:1:2)", "(anonymous", "(unnamed struct at /x:1:2)", "{lambda", "{unnamed type#", "#1}", "[abi:x]", "<, void>", "co_await", "restrict", "\u{7f}", "\u{0}", "$", "@", "\\", ";"];
fn c23(ctx: &mut Ctx) {
    let mut g = Rng::new(ctx.seed);
    // every legacy name, in every order of its words
    let words = ["short", "int", "long", "long", "signed", "unsigned", "char", "float", "double", "_Complex", "__int128"];
    let class = |w: &[&str]| -> Option<String> {
        let n = |k: &str| w.iter().filter(|x| **x == k).count();
        if w.iter().any(|x| n(x) > if *x == "long" { 2 } else { 1 }) { return None }
        let base: Vec<&str> = ["int", "char", "float", "double", "__int128"].into_iter().filter(|b| n(b) > 0).collect();
        if base.len() > 1 || n("signed") + n("unsigned") > 1 || n("short") > 0 && n("long") > 0 { return None }
        let base = base.first().copied().unwrap_or("int");
        let (sized, signed) = (n("short") + n("long"), n("signed") + n("unsigned"));
        let fp = base == "float" || base == "double";
        if n("_Complex") > 0 && !fp { return None }
        let u = if n("unsigned") > 0 { "unsigned " } else { "" };
        Some(match base {
            "int" => format!("{u}{}", ["int", "long", "long long"].iter().enumerate().find(|(i, _)| *i == n("long") && n("short") == 0).map_or("short", |x| x.1)),
            "char" if sized == 0 => format!("{}char", if n("signed") > 0 { "signed " } else { u }),
            "__int128" if sized == 0 => format!("{u}__int128"),
            "float" if sized + signed == 0 => "float".to_string() + if n("_Complex") > 0 { " _Complex" } else { "" },
            "double" if signed == 0 && n("short") == 0 && n("long") < 2 => format!("{}double{}", if n("long") > 0 { "long " } else { "" }, if n("_Complex") > 0 { " _Complex" } else { "" }),
            _ => return None,
        })
    };
    for len in 1..=5usize {
        let mut at = vec![0; len];
        'next: loop {
            let w: Vec<&str> = at.iter().map(|i| words[*i]).collect();
            if !ctx.done() && w.iter().filter(|x| **x == "long").count() < 4 {
                let text = w.join(" ");
                let want = class(&w);
                ctx.case(|| text.clone(), |c| {
                    c.hit(if want.is_some() { "legacy type" } else { "no legacy type" });
                    let mut p = EntityParser::new();
                    match (p.parse_type_like(&text), &want) {
                        (Ok(("", k)), Some(want)) => { let v = p.type_like(k); if v.to_string() != *want { return Err(format!("read as {v}, not {want}")) } }
                        (r, Some(want)) => return Err(format!("not read as {want} but {r:?}")),
                        (Ok(_), None) if p.parse_legacy_name(&text).map_or(false, |r| r.0.is_empty()) => return Err("read although these words are no type".into()),
                        _ => (),
                    }
                    Ok(())
                });
            }
            for i in 0..len { at[i] += 1; if at[i] == words.len() { at[i] = 0; if i + 1 == len { break 'next } } else { break } }
        }
    }
    let n = ctx.n(250000, 1500000);
    let mut p = EntityParser::new();
    let mut seen: std::collections::HashMap<String, cpparser::EntityKey> = Default::default();
    for k in 0..n {
        if ctx.done() { break }
        if k % 500 == 0 { p = EntityParser::new(); seen.clear(); }
        let fuel = 2 + g.below(if k % 2 == 0 { 40 } else { 8 }) as isize;
        let node = Gen { g: &mut g, fuel, noparen: false }.entity();
        let text = shown(&node, usize::MAX);
        let spellings: Vec<String> = (0..2).map(|_| spell::respelled(&node, &mut g)).collect();
        let first_other = g.chance(1, 2);
        ctx.case(|| format!("{text}   spelled   {spellings:?}"), |c| {
            for (i, s) in spellings.iter().enumerate() {
                if *s != text && i == 0 && first_other {
                    let k = p.parse_entity(s).map_err(|e| format!("{s} does not parse: {e}"))?;
                    let v = p.entity(k).to_string();
                    if v != text { return Err(format!("{s} read as {v}")) }
                }
            }
            let key = p.parse_entity(&text).map_err(|e| format!("does not parse: {e}"))?;
            { let got = p.entity(key).to_string(); if got != text { return Err(format!("shown as {got}")) } }
            for s in &spellings {
                if *s != text { c.hit("other spelling") }
                match p.parse_entity(s) { Ok(k) if k == key => (), Ok(k) => return Err(format!("{s:?} read as another entity: {}", p.entity(k))), Err(e) => return Err(format!("{s:?} does not parse: {e}")) }
            }
            if seen.get(&text).map_or(false, |k| *k != key) { return Err("has two keys".into()) }
            if p.entity(key) != p.entity(key) { return Err("does not compare equal to itself".into()) }
            if let Some((t, k)) = seen.iter().next() { if (p.entity(*k) == p.entity(key)) != (*t == text) { return Err(format!("compares equal to {t}: {}", *t != text)) } }
            if seen.insert(text.clone(), key).is_some() { c.hit("met again") }
            Ok(())
        });
        // fresh parsers agree with one that has seen other names
        if k % 2 == 0 && !ctx.done() {
            let mut soup = if k % 16 == 0 { (0..1 + g.below(9)).map(|_| *g.pick(SOUP)).collect::<String>() } else {
                let fuel = 2 + g.below(12) as isize;
                let mut t = bones::tokens(&shown(&Gen { g: &mut g, fuel, noparen: false }.entity(), usize::MAX));
                for _ in 0..1 + g.below(2) {
                    let i = g.below(t.len() + 1);
                    let opening: Vec<usize> = (0..t.len()).filter(|k| matches!(t[*k].as_str(), "(" | "<" | ",")).collect();
                    match g.below(6) {
                        // a separated part more
                        5 if !opening.is_empty() => { let x = *g.pick(&["..., ", "...,", "void, ", "a, ", ",", "int...,", "1, ", "&, "]); t.insert(*g.pick(&opening) + 1, x.into()) }
                        0 if i < t.len() => { t.remove(i); }
                        1 if i < t.len() => { let x = t[i].clone(); t.insert(g.below(t.len() + 1), x) }
                        2 if i < t.len() => { let j = g.below(t.len()); t.swap(i, j) }
                        3 if i < t.len() => t[i] = g.pick(SOUP).to_string(),
                        _ => t.insert(i, g.pick(SOUP).to_string()),
                    }
                }
                t.concat()
            };
            if g.chance(1, 12) { let t = *g.pick(SOUP); let cut: Vec<char> = text.chars().collect(); let (i, j) = (g.below(cut.len() + 1), g.below(cut.len() + 1)); soup = cut[..i.min(60)].iter().collect::<String>() + t + &cut[j.max(cut.len().saturating_sub(60))..].iter().collect::<String>(); }
            if soup.is_ascii() {
                ctx.case(|| format!("{soup:?}"), |c| {
                    let mut fresh = EntityParser::new();
                    let a = fresh.parse_entity(&soup).map(|k| fresh.entity(k).to_string()).map_err(|e| e.to_string());
                    let b = p.parse_entity(&soup).map(|k| p.entity(k).to_string()).map_err(|e| e.to_string());
                    c.hit(if a.is_ok() { "any text, read" } else { "any text, refused" });
                    if a != b { return Err(format!("{a:?} by a new parser, {b:?} by one that has read other names")) }
                    if let Ok(a) = a { if bones::bones(&a) != bones::bones(&soup) { return Err(format!("read as {a}")) } }
                    Ok(())
                });
            }
        }
    }
}
fn main() { vkit::run(&[("C22", c22), ("C23", c23)]) }
