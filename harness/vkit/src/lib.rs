// Shared driver of the executable contract oracles: deterministic generation,
// panic capture, replay of a single case, JSON summary on stdout.
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n.max(1) as u64)) as usize }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<u64>,
    pub cases: u64,
    pub checked: u64,
    pub distinct: std::collections::HashMap<&'static str, u64>,
    pub violations: Vec<(u64, String, String)>,
    pub max_violations: usize,
    pub deadline: Instant,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
    progress: Option<std::fs::File>,
    nontrivial: bool,
    distinct_cases: std::collections::HashSet<u64>,
}
/// (case number + 1, 0 = idle) and the instant it started at, for the watchdog
static CURRENT: std::sync::Mutex<Option<(u64, Instant)>> = std::sync::Mutex::new(None);
/// no single case of any oracle takes anywhere near this long on correct code
const CASE_LIMIT: Duration = Duration::from_secs(20);

impl Ctx {
    /// number of random cases for this tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
    /// stop generating (enough violations or out of time)?
    pub fn done(&self) -> bool {
        self.violations.len() >= self.max_violations || Instant::now() > self.deadline
            || self.only.map_or(false, |o| self.cases > o)
    }
    /// count a kind of situation that was exercised (reported in the evidence)
    pub fn hit(&mut self, what: &'static str) { self.nontrivial = true; self.tally(what); }
    /// same for a situation that does not make the case an interesting one
    pub fn tally(&mut self, what: &'static str) { *self.distinct.entry(what).or_insert(0) += 1; }
    pub fn note(&mut self, s: impl Into<String>) { self.notes.push(s.into()); }
    /// Run one case; Err or panic is a violation of the property
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce(&mut Ctx) -> Result<(), String>) {
        let id = self.cases;
        self.cases += 1;
        if let Some(o) = self.only { if o != id { return; } }
        self.checked += 1;
        if self.only.is_some() { emit(&format!("case {id}: {}", desc())); }
        if let Some(p) = &self.progress { use std::os::unix::fs::FileExt; let _ = p.write_at(&id.to_le_bytes(), 0); }
        if self.checked % 97 == 1 && self.samples.len() < 12 { let mut d = desc(); if d.len() > 300 { let mut k = 300; while !d.is_char_boundary(k) { k -= 1 } d.truncate(k); } self.samples.push(d); }
        *CURRENT.lock().unwrap() = Some((id, Instant::now()));
        self.nontrivial = false;
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if self.nontrivial { let mut h = std::collections::hash_map::DefaultHasher::new(); desc().hash(&mut h); self.distinct_cases.insert(h.finish()); }
        *CURRENT.lock().unwrap() = None;
        let msg = match r {
            Ok(Ok(())) => { if self.only == Some(id) { emit("  holds"); } return }
            Ok(Err(m)) => m,
            Err(p) => format!("panicked: {}", panic_text(&*p)),
        };
        self.violations.push((id, desc(), msg));
    }
}
pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    let loc = LAST.with(|l| l.borrow().clone());
    let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
    format!("{m} at {loc}")
}
thread_local!(static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

/// where results go (checks that need a terminal as standard output move it)
pub static RESULT_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
fn emit(s: &str) {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let fd = RESULT_FD.load(std::sync::atomic::Ordering::SeqCst);
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    let _ = f.write_all(format!("{s}\n").as_bytes());
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// usage: <bin> <check> [--tier quick|thorough] [--seed N] [--case N] [--secs N]
pub fn run(checks: &[(&str, fn(&mut Ctx))]) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let name = args.get(1).cloned().unwrap_or_default();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 90 });
    let only = get("--case").and_then(|s| s.parse().ok());
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = l);
    }));
    let f = match checks.iter().find(|(n, _)| *n == name) {
        Some((_, f)) => *f,
        None => { eprintln!("unknown check {name}"); std::process::exit(3) }
    };
    let progress = get("--progress").and_then(|p| std::fs::File::create(p).ok());
    let (seed2, name2) = (seed, name.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some((id, t)) = *CURRENT.lock().unwrap() {
            if t.elapsed() > CASE_LIMIT {
                emit(&format!("{{\"check\":{},\"seed\":{seed2},\"cases\":{id},\"secs\":0,\"hits\":{{}},\"notes\":[],\"samples\":[],\"violations\":[{{\"case\":{id},\"input\":\"\",\"message\":\"did not finish within {CASE_LIMIT:?}\"}}]}}", esc(&name2)));
                std::process::exit(0);
            }
        }
    });
    let mut ctx = Ctx { samples: vec![], nontrivial: false, distinct_cases: Default::default(), progress, thorough, seed, only, cases: 0, checked: 0, distinct: Default::default(), violations: vec![], max_violations: 5,
        deadline: Instant::now() + Duration::from_secs(secs), notes: vec![] };
    let t0 = Instant::now();
    f(&mut ctx);
    let mut o = String::new();
    let _ = write!(o, "{{\"check\":{},\"seed\":{},\"cases\":{},\"distinct\":{},\"secs\":{:.2},\"hits\":{{", esc(&name), seed, ctx.checked, ctx.distinct_cases.len(), t0.elapsed().as_secs_f64());
    let mut h: Vec<_> = ctx.distinct.iter().collect();
    h.sort();
    for (i, (k, v)) in h.iter().enumerate() { let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, esc(k), v); }
    o.push_str("},\"notes\":[");
    for (i, n) in ctx.notes.iter().enumerate() { let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, esc(n)); }
    o.push_str("],\"samples\":[");
    for (i, n) in ctx.samples.iter().enumerate() { let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, esc(n)); }
    o.push_str("],\"violations\":[");
    for (i, (id, d, m)) in ctx.violations.iter().enumerate() {
        let _ = write!(o, "{}{{\"case\":{},\"input\":{},\"message\":{}}}", if i > 0 { "," } else { "" }, id, esc(d), esc(m));
    }
    o.push_str("]}");
    emit(&o);
}
