//! What remains of a spelling without white space and without what has several spellings
const DROP: &[&str] = &["class", "struct", "enum", "union", "typename", "const", "volatile"];
const ARITHMETIC: &[&str] = &["short", "int", "long", "signed", "unsigned", "char", "float", "double", "_Complex", "__int128"];
fn id_start(c: char) -> bool { c.is_ascii_alphabetic() || c == '_' || c == '$' }
fn character(s: &[char], at: usize) -> Option<(u32, usize)> {
    // after the opening quote
    let c = *s.get(at)?;
    let (v, at) = if c != '\\' { (c as u32, at + 1) } else {
        let e = *s.get(at + 1)?;
        match e {
            't' => (9, at + 2), 'r' => (13, at + 2), 'n' => (10, at + 2), '\'' | '"' | '\\' => (e as u32, at + 2),
            '0'..='7' => { let d: String = s[at + 1..].iter().take_while(|c| c.is_digit(8)).collect(); (u32::from_str_radix(&d, 8).ok()?, at + 1 + d.len()) }
            'x' | 'u' | 'U' => {
                let braces = s.get(at + 2) == Some(&'{');
                let from = at + 2 + braces as usize;
                let d: String = s[from..].iter().take_while(|c| c.is_ascii_hexdigit()).collect();
                (u32::from_str_radix(&d, 16).ok()?, from + d.len() + braces as usize)
            }
            _ => return None,
        }
    };
    if s.get(at) == Some(&'\'') { Some((v, at + 1)) } else { None }
}
pub fn bones(text: &str) -> Vec<String> {
    let s: Vec<char> = text.chars().collect();
    let (mut o, mut i): (Vec<String>, usize) = (vec![], 0);
    // whether the last word was part of an arithmetic type
    let mut arith = false;
    while i < s.len() {
        let c = s[i];
        if c.is_whitespace() { i += 1; continue }
        if id_start(c) {
            let w: String = s[i..].iter().take_while(|c| id_start(**c) || c.is_ascii_digit()).collect();
            i += w.len();
            if DROP.contains(&w.as_str()) { continue }
            if s.get(i) == Some(&'\'') && ["u8", "u", "U", "L"].contains(&w.as_str()) { continue }
            if ARITHMETIC.contains(&w.as_str()) { if !arith { o.push("arithmetic".into()) } arith = true; continue }
            arith = false;
            if w == "at" {
                // a source path, up to redundant separators
                let from = i + s[i..].iter().take_while(|c| c.is_whitespace()).count();
                if s.get(from) == Some(&'/') {
                    // up to :line:column)
                    let ends = |k: usize| {
                        let d = |k: usize| k + s[k.min(s.len())..].iter().take_while(|c| c.is_ascii_digit()).count();
                        let (a, at) = (d(k + 1), |k: usize, c| s.get(k) == Some(&c));
                        let b = d(a + 1);
                        at(k, ':') && a > k + 1 && at(a, ':') && b > a + 1 && at(b, ')')
                    };
                    let path: String = (from..s.len()).take_while(|k| !ends(*k)).map(|k| s[k]).collect();
                    i = from + path.chars().count();
                    let parts: Vec<&str> = path.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
                    o.push(format!("at {}", parts.join("/")));
                    continue
                }
            }
            o.push(match w.as_str() { "unnamed" => "anonymous".into(), "__restrict" | "__restrict__" => "restrict".into(), _ => w });
            continue
        }
        arith = false;
        if c.is_ascii_digit() {
            let d: String = s[i..].iter().take_while(|c| c.is_ascii_digit()).collect();
            i += d.len();
            let auto = o.len() > 1 && o[o.len() - 1] == ":" && o[o.len() - 2] == "auto";
            while !auto && i < s.len() && "uUlLzZ".contains(s[i]) { i += 1 }
            let d = match d.trim_start_matches('0') { "" => "0", d => d }.to_string();
            while o.last().map_or(false, |l| l == "+" || l == "-" && d == "0") { o.pop(); }
            o.push(d);
            continue
        }
        if c == '\'' { if let Some((v, next)) = character(&s, i + 1) { o.push(format!("'{v}'")); i = next; continue } }
        if c == ':' && s.get(i + 1) == Some(&':') {
            while o.last().map_or(false, |l| l == "&") { o.pop(); }
            for _ in 0..2 { o.push(":".into()); }
            i += 2;
            continue
        }
        o.push(c.to_string());
        i += 1;
    }
    // an attribute without content
    while let Some(k) = (0..o.len()).find(|k| o[*k] == "__attribute__" && o[*k + 1..].starts_with(&["((", "))"].concat().chars().map(|c| c.to_string()).collect::<Vec<_>>())) { o.drain(k..k + 5); }
    o
}
/// coarse tokens of a text
pub fn tokens(text: &str) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let word = |c: char| id_start(c) || c.is_ascii_digit();
    for c in text.chars() {
        match o.last_mut() { Some(l) if word(c) && l.chars().all(word) => l.push(c), _ => o.push(c.to_string()) }
    }
    o
}
