//! Entities as trees of text segments: an independent model of how a C++ entity is spelled and elided
use vkit::Rng;
#[derive(Clone, Debug)]
pub enum Seg { T(String), List { h: &'static str, s: &'static str, t: &'static str, items: Vec<Node> }, Path { rooted: bool, items: Vec<Node> }, Sig { params: Vec<Node>, variadic: bool } }
pub type Node = Vec<Seg>;
fn t(s: impl Into<String>) -> Seg { Seg::T(s.into()) }
pub fn depth(n: &Node) -> usize { n.iter().map(seg_depth).max().unwrap_or(0) }
fn items_depth(items: &[Node]) -> usize { items.iter().map(|i| depth(i) + 1).max().unwrap_or(0) }
fn seg_depth(s: &Seg) -> usize { match s { Seg::T(_) => 0, Seg::List { items, .. } | Seg::Path { items, .. } => items_depth(items), Seg::Sig { params, variadic } => { let _ = variadic; items_depth(params) } } }
pub fn show(n: &Node, r: usize, o: &mut String) { for s in n { show_seg(s, r, o) } }
pub fn shown(n: &Node, r: usize) -> String { let mut o = String::new(); show(n, r, &mut o); o }
fn list(items: &[Node], sep: &str, r: usize, o: &mut String) {
    if items.is_empty() { return }
    if r == 0 { o.push('…'); return }
    for (i, x) in items.iter().enumerate() { if i > 0 { o.push_str(sep) } show(x, r - 1, o) }
}
fn show_seg(s: &Seg, r: usize, o: &mut String) {
    match s {
        Seg::T(s) => o.push_str(s),
        Seg::List { h, s, t, items } => { o.push_str(h); list(items, s, r, o); o.push_str(t) }
        Seg::Path { rooted, items } => {
            if r == 0 && !items.is_empty() { o.push_str("…::") }
            else { if *rooted { o.push_str("::") } list(items, "", r, o) }
        }
        Seg::Sig { params, variadic } => {
            o.push('(');
            list(params, ", ", r, o);
            if *variadic && params.is_empty() { o.push_str("...") } else if *variadic && r > 0 { o.push_str(", ...") }
            o.push(')')
        }
    }
}
/// where a value stands: what may follow it bare
#[derive(Clone, Copy, PartialEq)]
pub enum At { Template, Argument, Bracket }
pub struct Gen<'a> { pub g: &'a mut Rng, pub fuel: isize, pub noparen: bool }
pub const IDS: &[&str] = &["a", "b", "foo", "T", "x1", "_y", "std", "vec", "Q_", "longer_name", "newt", "deleted", "operators", "constant", "sizeof_", "do", "o", "d", "e", "enums", "v", "volat", "auto", "intx", "longs", "lambda", "noex", "voided", "unknown"];
const WORDS: &[&str] = &["const", "volatile", "int", "long", "unsigned", "signed", "short", "char", "float", "double", "_Complex", "__int128", "restrict", "__restrict", "__restrict__", "class", "struct", "union", "enum", "typename", "operator", "new", "delete", "co_await", "noexcept", "decltype", "sizeof", "declval", "auto", "__vector", "__attribute__", "$", "lambda"];
pub const LEGACY: &[&str] = &["short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "__int128", "unsigned __int128", "char", "signed char", "unsigned char", "float", "double", "long double", "float _Complex", "double _Complex", "long double _Complex"];
impl Gen<'_> {
    fn ch(&mut self, a: usize, b: usize) -> bool { self.g.chance(a, b) }
    fn low(&mut self) -> bool { self.fuel -= 1; self.fuel <= 0 }
    fn id(&mut self) -> Seg {
        // names that start like keywords
        if self.ch(1, 6) { let (w, x) = (*self.g.pick(WORDS), *self.g.pick(&["_", "x", "0", "$", "_t", "$1", "$x", "9z"])); return t(format!("{w}{x}")) }
        let i = *self.g.pick(IDS); t(i)
    }
    fn some(&mut self, lo: usize, hi: usize) -> usize { let mut n = lo; while n < hi && self.ch(1, 2) { n += 1 } n }
    fn cv(&mut self) -> &'static str { *self.g.pick(&["const", "volatile", "const volatile"]) }
    pub fn entity(&mut self) -> Node { if self.ch(1, 100) { return vec![t("<unknown>")] } self.ty(true) }
    /// a type; `open` if anything may follow its declarator
    pub fn ty(&mut self, open: bool) -> Node {
        let mut n = vec![];
        if self.ch(1, 20) && !self.low() { n.push(t("__attribute__(")); n.push(self.call(1)); n.push(t(") ")); }
        if self.ch(1, 5) { let c = self.cv(); n.push(t(format!("{c} "))); }
        let mut bare = true;
        match self.g.below(10) {
            0 | 1 => { let l = *self.g.pick(LEGACY); n.push(t(l)) }
            2 if self.ch(1, 2) => { let k = self.g.next() as u32 >> self.g.below(32); n.push(t(format!("auto:{k}"))) }
            _ => { n.push(t("")); bare = self.id_expr(&mut n, open) }
        }
        if bare && open { let d = self.declarator(false); if !d.is_empty() { n.push(Seg::List { h: "", s: "", t: "", items: d }) } }
        n
    }
    /// returns whether declarators may follow
    fn id_expr(&mut self, n: &mut Node, _open: bool) -> bool {
        n.push(self.path(0));
        self.unqualified(n, true)
    }
    fn path(&mut self, min: usize) -> Seg {
        let rooted = self.ch(1, 6);
        let k = if self.low() { min } else { self.some(min, 3) };
        let items = (0..k).map(|_| {
            let mut n = vec![];
            let bare = self.unqualified(&mut n, false);
            if bare && self.ch(1, 5) || !bare { self.signature(&mut n); }
            n.push(t("::"));
            n
        }).collect();
        Seg::Path { rooted, items }
    }
    fn unqualified(&mut self, n: &mut Node, last: bool) -> bool {
        let noparen = std::mem::replace(&mut self.noparen, false);
        match self.g.below(24) {
            0 => { n.push(t("~")); n.push(self.id()); if self.ch(1, 4) { let p = self.template(); n.push(p) } true }
            1 | 2 => {
                let op = if last { *self.g.pick(&["()", "[]", "\"\" _km", " new", " delete", " new[]", " delete[]", " co_await"]) } else { *self.g.pick(&["+", "-", "*", "/", "%", "^", "&", "|", "~", "!", "=", "<", ">", ",", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "==", "!=", "<=", ">=", "<<", ">>", "<<=", ">>=", "&&", "||", "++", "--", "->", "->*", "<=>", "()", "[]", "\"\" _km", "\"\" id", " new", " delete", " new[]", " delete[]", " co_await"]) };
                n.push(t(format!("operator{op}")));
                if op == "<<" || self.ch(1, 3) && !last { let p = self.template(); n.push(p) }
                false
            }
            3 if last => { n.push(t("operator ")); let ty = self.ty(false); n.extend(ty); false }
            4 if !self.low() => { n.push(t("decltype(")); let v = self.value(At::Argument); n.extend(v); n.push(t(")")); true }
            5 if !noparen => {
                let (l, c) = (self.g.next() as u32 >> self.g.below(32), self.g.below(300));
                let p = *self.g.pick(&["/a/b.cpp", "/x", "/usr/include/c++/v1/__tree", "/a b/c d.h"]);
                let w = *self.g.pick(&["class", "namespace", "struct", "union"]);
                let k = self.g.next() as u32 >> self.g.below(32);
                let s = match self.g.below(5) { 0 => format!("(lambda at {p}:{l}:{c})"), 1 => "(anonymous)".into(), 2 => format!("(anonymous {w})"), 3 => format!("(anonymous {w} at {p}:{l}:{c})"), _ => format!("{{unnamed type#{k}}}") };
                n.push(t(s)); true
            }
            6 if !self.low() => { n.push(t("{lambda")); self.signature(n); let k = self.g.next() as u32 >> self.g.below(32); n.push(t(format!("#{k}}}"))); true }
            _ => { n.push(self.id()); if self.ch(1, 3) { let p = self.template(); n.push(p) } true }
        }
    }
    fn template(&mut self) -> Seg {
        let l = |items| Seg::List { h: "<", s: ", ", t: ">", items };
        if self.ch(1, 30) { return l(vec![vec![t(", void")]]) }
        if self.low() { return l(vec![]) }
        let k = self.some(0, 4);
        l((0..k).map(|_| if self.ch(1, 3) { self.value(At::Template) } else { self.ty(true) }).collect())
    }
    fn call(&mut self, min: usize) -> Seg { let k = if self.low() { min } else { self.some(min, 4) }; Seg::List { h: "(", s: ", ", t: ")", items: (0..k).map(|_| self.value(At::Argument)).collect() } }
    pub fn signature(&mut self, n: &mut Node) {
        if self.ch(1, 20) { n.push(t("[abi:")); n.push(self.id()); n.push(t("]")) }
        let k = if self.low() { 0 } else { self.some(0, 4) };
        let params = (0..k).map(|_| self.ty(true)).collect();
        let variadic = self.ch(1, 8);
        n.push(Seg::Sig { params, variadic });
        if self.ch(1, 6) { let c = self.cv(); n.push(t(format!(" {c}"))) }
        if self.ch(1, 8) { let r = *self.g.pick(&[" &", " &&"]); n.push(t(r)) }
        if self.ch(1, 8) { n.push(t(" noexcept")); if self.ch(1, 2) && !self.low() { n.push(t("(")); let v = self.value(At::Argument); n.extend(v); n.push(t(")")) } }
    }
    fn declarator(&mut self, some: bool) -> Vec<Node> {
        let mut items: Vec<Node> = vec![];
        let (mut prev, mut k) = (if some { '(' } else { ' ' }, if some { 1 } else { 0 });
        if !self.low() { while k < 4 && self.ch(2, 5) { k += 1 } }
        for _ in 0..k {
            let mut n = vec![];
            match self.g.below(10) {
                0 if prev != '*' && prev != 'c' && prev != '(' => { let c = self.cv(); n.push(t(format!(" {c}"))); prev = 'c' }
                1 if prev != '&' => { let r = *self.g.pick(&["&", "&&"]); n.push(t(r)); prev = '&' }
                2 => {
                    n.push(t("[")); if self.ch(2, 3) && !self.low() { let v = self.value(At::Argument); n.extend(v) } n.push(t("]")); prev = ']'
                }
                3 if !self.low() => { n.push(t(" (")); let d = self.declarator(true); n.push(Seg::List { h: "", s: "", t: "", items: d }); n.push(t(")")); prev = ')' }
                4 if prev != '(' && !self.low() => { n.push(t(" __vector(")); let v = self.value(At::Argument); n.extend(v); n.push(t(")")); prev = ')' }
                5 if !self.low() => { n.push(t(" ")); self.noparen = true; let mut p = self.path(1); self.noparen = false; if matches!(prev, 'c' | '&') { if let Seg::Path { rooted, .. } = &mut p { *rooted = false } } n.push(p); n.push(t("*")); prev = '*'; self.ptr(&mut n) }
                6 => {
                    self.signature(&mut n);
                    if self.ch(1, 6) && !self.low() { n.push(t(" -> ")); let ty = self.ty(true); n.extend(ty) }
                    items.push(n);
                    return items;
                }
                _ => { n.push(t("*")); prev = '*'; self.ptr(&mut n) }
            }
            items.push(n);
        }
        items
    }
    fn ptr(&mut self, n: &mut Node) {
        if self.ch(1, 5) { let c = self.cv(); n.push(t(format!(" {c}"))) }
        if self.ch(1, 9) { n.push(t(" restrict")) }
    }
    fn literal(&mut self) -> Seg {
        let v = match self.g.below(8) {
            0 => (self.g.next() as i64 >> self.g.below(64)).to_string(),
            1 => (self.g.next() | 1 << 63).to_string(),
            2 | 3 => { let c = (32 + self.g.below(95)) as u8 as char; format!("{c:?}") }
            4 => format!("{:?}", *self.g.pick(&['\t', '\r', '\n', '\'', '"', '\\', '\0'])),
            _ => self.g.below(100).to_string(),
        };
        t(if self.ch(1, 10) { format!("{v}_km") } else { v })
    }
    fn words(&mut self) -> Node { self.noparen = true; let mut n = vec![self.path(0)]; self.noparen = false; n.push(self.id()); if self.ch(1, 4) { let p = self.template(); n.push(p) } n }
    pub fn value(&mut self, at: At) -> Node {
        let mut n = vec![];
        let low = self.low();
        // in a template parameter, start with something that no type starts with
        match if low { 0 } else { self.g.below(if at == At::Template { 8 } else { 12 }) } {
            0 | 1 | 2 => { let l = self.literal(); n.push(l) }
            3 => { n.push(t("(")); let l = self.literal(); n.push(l); self.trailer(&mut n, At::Bracket); n.push(t(")")) }
            4 => {
                let op = *self.g.pick(&["-", "+", "*", "&", "~x"]);
                if op == "~x" { n.push(t("!")); let v = self.value(at); if matches!(&v[0], Seg::T(_)) && depth(&v) == 0 { n.extend(v) } else { n.extend(v) } return n }
                n.push(t(op)); let w = self.words(); n.extend(w)
            }
            5 if at != At::Template => { n.push(t("sizeof(")); let ty = self.ty(true); n.extend(ty); n.push(t(")")) }
            6 if at != At::Template => { n.push(t("declval(")); let ty = self.ty(true); n.extend(ty); n.push(t(")")) }
            7 if at != At::Template => { n.push(t("new")); if self.ch(1, 3) { let c = self.call(1); n.push(c) } n.push(t(" ")); let w = self.words(); n.extend(w); if self.ch(1, 3) { let l = self.literal(); n.push(Seg::List { h: "(", s: ", ", t: ")", items: vec![vec![l]] }) } return n }
            5 | 6 | 7 => { let l = self.literal(); n.push(l) }
            8 => { n.push(t("(")); let ty = self.ty(true); n.extend(ty); n.push(t(")")); let w = self.words(); n.extend(w) }
            9 if self.ch(1, 4) => { n.push(t("...")) ; return n }
            _ => { let w = self.words(); n.extend(w) }
        }
        self.trailer(&mut n, at);
        n
    }
    /// what follows a value: one list of trailers
    fn trailer(&mut self, n: &mut Node, at: At) {
        let mut items: Vec<Node> = vec![];
        while self.ch(1, 3) && !self.low() {
            let mut i = vec![];
            match self.g.below(6) {
                0 => { i.push(t("[")); let v = self.value(At::Argument); i.extend(v); i.push(t("]")) }
                1 => { let c = self.call(0); i.push(c) }
                2 => { i.push(t(".")); i.push(self.id()); if self.ch(1, 4) { let p = self.template(); i.push(p) } }
                3 => { i.push(t(" ? ")); let v = self.value(at); i.extend(v); i.push(t(" : ")); let v = self.value(at); i.extend(v); items.push(i); break }
                4 => { let p = *self.g.pick(&["++", "--"]); i.push(t(p)); items.push(i); break }
                _ => {
                    let op = if at == At::Bracket && self.ch(1, 4) { *self.g.pick(&[",", ">", ">>", ">=", ">>="]) } else if at == At::Argument && self.ch(1, 4) { *self.g.pick(&[">", ">>", ">=", ">>="]) } else { *self.g.pick(&["+", "-", "*", "/", "%", "^", "&", "|", "=", "<<", "&&", "||", "==", "!=", "<=", "<=>", "+=", "<<=", "->", "->*"]) };
                    i.push(t(if op.starts_with("->") { op.into() } else { format!(" {op} ") })); let mut v = self.value(at); if op.ends_with('&') && shown(&v, usize::MAX).trim_start_matches('&').starts_with("::") { v = vec![self.literal()] }
                    // a function with a trailing return type
                    if op.starts_with("->") && shown(&v, usize::MAX).starts_with("new ::") { v = vec![self.literal()] }
                    i.extend(v); items.push(i); break
                }
            }
            items.push(i);
        }
        if !items.is_empty() { n.push(Seg::List { h: "", s: "", t: "", items }) }
    }
}
