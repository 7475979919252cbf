//! Other spellings of an entity that are to be read as the same one
use crate::model::{Node, Seg, IDS, LEGACY};
use vkit::Rng;
pub struct Speller<'a> { pub g: &'a mut Rng, pub out: String }
const CHARS: &[char] = &['\t', '\r', '\n', '\'', '"', '\\'];
impl Speller<'_> {
    fn ch(&mut self, a: usize, b: usize) -> bool { self.g.chance(a, b) }
    /// white space, possibly none
    fn ws(&mut self) { while self.ch(1, 6) { let w = *self.g.pick(&[" ", "  ", "\t", "\n", "\r\n"]); self.out.push_str(w) } }
    fn ws1(&mut self) { if self.ch(5, 6) { self.out.push(' ') } else { self.out.push_str(["\t", "\n", "  ", " \r\n"][self.g.below(4)]) } self.ws() }
    fn cvs(&mut self, cv: &str) {
        let mut w: Vec<&str> = cv.split(' ').collect();
        if self.ch(1, 2) { w.reverse() }
        if self.ch(1, 5) { let x = w[0]; w.push(x) }
        for (i, x) in w.iter().enumerate() { if i > 0 { self.ws1() } self.out.push_str(x) }
    }
    fn legacy(&mut self, l: &str) {
        let mut w: Vec<&str> = l.split(' ').collect();
        let intish = !l.contains("float") && !l.contains("double");
        let (has, unsigned) = (|k: &str, w: &Vec<&str>| w.contains(&k), l.contains("unsigned"));
        if intish && l != "__int128" && l != "unsigned __int128" && !l.contains("char") {
            if !has("int", &w) { if self.ch(1, 2) { w.push("int") } } else if unsigned && self.ch(1, 2) { w.retain(|x| *x != "int") }
        }
        if intish && !unsigned && !l.contains("char") && self.ch(1, 3) { w.push("signed"); if w.len() > 1 && l == "int" && self.ch(1, 2) { w.retain(|x| *x != "int") } }
        for i in (1..w.len()).rev() { let j = self.g.below(i + 1); w.swap(i, j) }
        for (i, x) in w.iter().enumerate() { if i > 0 { self.ws1() } self.out.push_str(x) }
    }
    fn number(&mut self, s: &str) {
        self.out.push_str(s);
        while self.ch(1, 6) { let k = *self.g.pick(&["u", "U", "l", "L", "z", "Z"]); self.out.push_str(k) }
    }
    fn character(&mut self, s: &str) {
        if self.ch(1, 6) { let p = *self.g.pick(&["u8", "u", "U", "L"]); self.out.push_str(p) }
        let (q, suffix) = s.split_at(s.rfind('\'').unwrap() + 1);
        let c = match &q[1..q.len() - 1] { "\\t" => '\t', "\\r" => '\r', "\\n" => '\n', "\\'" => '\'', "\\\\" => '\\', "\\0" => '\0', x => x.chars().next().unwrap() };
        let alt = match self.g.below(8) {
            0 => { let w = self.g.below(6); if self.ch(1, 2) { format!("\\x{:0w$x}", c as u32) } else { format!("\\x{:0w$X}", c as u32) } } 1 => { let w = self.g.below(4); format!("\\{:0w$o}", c as u32) } 2 => format!("\\u{:04X}", c as u32), 3 => format!("\\U{:08x}", c as u32),
            4 if c == '"' => "\\\"".into(),
            _ => q[1..q.len() - 1].into(),
        };
        let _ = CHARS;
        self.out.push_str(&format!("'{alt}'{suffix}"));
    }
    fn text(&mut self, s: &str) {
        if LEGACY.contains(&s) { return self.legacy(s) }
        if s.starts_with('\'') { return self.character(s) }
        if s.parse::<i128>().is_ok() { return self.number(s) }
        if s.starts_with("(anonymous") || s.starts_with("(lambda") { let s = if self.ch(1, 3) { s.replace("(anonymous", "(unnamed") } else { s.into() }; return self.out.push_str(&s) }
        if s.starts_with("{unnamed") || s == ", void" || s.contains("_km") && !s.starts_with("operator") { return self.out.push_str(s) }
        if s == " restrict" { self.ws1(); let k = *self.g.pick(&["restrict", "__restrict", "__restrict__"]); return self.out.push_str(k) }
        if let Some(x) = s.strip_prefix(' ').or(s.strip_suffix(' ')).filter(|x| matches!(*x, "const" | "volatile" | "const volatile")) {
            if s.starts_with(' ') { if !matches!(self.out.chars().last(), Some(')' | ']' | '*' | '>')) || self.ch(1, 2) { self.ws1() } else { self.ws() } }
            self.cvs(x);
            if s.ends_with(' ') { self.ws1() }
            return
        }
        if matches!(s, " &" | " &&" | " noexcept" | " -> ") {
            if self.out.ends_with(')') && self.ch(1, 2) { self.ws() } else { self.ws1() }
            self.out.push_str(s.trim());
            return if s == " -> " { self.ws() }
        }
        for c in s.chars() { if c == ' ' { self.ws1() } else { self.out.push(c) } }
    }
    fn list(&mut self, items: &[Node], sep: &str) {
        for (i, x) in items.iter().enumerate() {
            if i > 0 { if sep == ", " { self.ws(); self.out.push(','); self.ws() } else { self.out.push_str(sep) } }
            self.node(x);
        }
    }
    /// qualifiers and reference marks after a scope mean nothing
    fn scope(&mut self, n: &Node) {
        self.node(&n[..n.len() - 1].to_vec());
        if self.ch(1, 6) && !matches!(&n[n.len() - 2], Seg::Sig { .. }) && !n.iter().any(|s| matches!(s, Seg::Sig { .. })) {
            if self.ch(1, 2) { self.ws1(); let c = *self.g.pick(&["const", "volatile", "const volatile"]); self.cvs(c); }
            if self.ch(1, 2) { self.ws(); let r = *self.g.pick(&["&", "&&"]); self.out.push_str(r) }
        }
        self.out.push_str("::");
    }
    pub fn node(&mut self, n: &Node) {
        let mut k = 0;
        while k < n.len() {
            // cv and restrict of a pointer in either order
            if let (Seg::T(a), Some(Seg::T(b)), Some(Seg::T(c))) = (&n[k], n.get(k + 1), n.get(k + 2)) {
                if a == "*" && c == " restrict" && self.ch(1, 2) { self.out.push('*'); self.ws(); self.text(c); self.text(b); k += 3; continue }
            }
            match &n[k] {
                // where a type starts with a name
                Seg::T(s) if s.is_empty() => if self.ch(1, 6) { let w = *self.g.pick(&["class", "typename", "struct", "enum", "union"]); self.out.push_str(w); self.ws1() },
                Seg::T(s) => self.text(s),
                Seg::List { h, s, t, items } => {
                    if *h == "<" && k > 0 && matches!(&n[k - 1], Seg::T(i) if IDS.contains(&i.as_str())) && self.ch(1, 6) { self.ws1(); let c = *self.g.pick(&["const", "volatile", "const volatile"]); self.cvs(c); if self.ch(1, 2) { self.ws() } }
                    self.out.push_str(h);
                    if h.is_empty() || matches!(items.first().and_then(|i| i.first()), Some(Seg::T(x)) if x == ", void") { self.list(items, s) } else { self.ws(); self.list(items, s); if !items.is_empty() { self.ws() } }
                    self.out.push_str(t);
                }
                Seg::Path { rooted, items } => { if *rooted { self.out.push_str("::") } for x in items { self.scope(x) } }
                Seg::Sig { params, variadic } => {
                    self.out.push('('); self.ws();
                    self.list(params, ", ");
                    if *variadic { if !params.is_empty() { self.ws(); self.out.push(','); self.ws() } self.out.push_str("...") }
                    if *variadic || !params.is_empty() { self.ws() }
                    self.out.push(')');
                }
            }
            k += 1;
        }
    }
}
pub fn respelled(n: &Node, g: &mut Rng) -> String { let mut s = Speller { g, out: String::new() }; s.node(n); s.out }
