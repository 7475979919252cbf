// C16: what a compilation database says about its entries, against an independent reading of the same texts
use cmakeperf::commands::{CompilationDatabase, DatabaseEntry, DatabaseLoadError};
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};
use vkit::{esc, Ctx, Rng};

const SPECIAL: &[char] = &[' ', '\t', '\n', '\'', '"', '\\', '$', '#', '|', '&', ';', '(', ')', '<', '>', '*', '?', '[', '~', '=', '%', '`', '!', '{', '}'];
fn word(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "-o".into(), 1 => "-O2".into(), 2 => "-o=x".into(), 3 => String::new(), 4 => "-".into(), 5 => "--output".into(), 6 => "-oo".into(),
        7 => "-O".into(), 8 => format!("-I{}", path(r)), 9 => path(r),
        _ => { let n = r.below(8); (0..n).map(|_| if r.chance(1, 3) { *r.pick(SPECIAL) } else { *r.pick(&['a', 'b', 'Z', '0', '-', '.', '/', '_', 'é', '漢', ',', ':', '+']) }).collect() }
    }
}
fn path(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 2) { s.push('/'); }
    for i in 0..r.below(4) {
        if i > 0 { s.push_str(if r.chance(1, 6) { "//" } else { "/" }); }
        s.push_str(*r.pick(&["a", "b.cpp", "dir", ".", "..", "sub dir", "x.o", "é", "real", "link", "CMakeFiles"]));
    }
    if r.chance(1, 8) { s.push('/'); }
    s
}
/// write a word the way a shell user may
fn quoted(r: &mut Rng, w: &str) -> String {
    let mut o = String::new();
    let cs: Vec<char> = w.chars().collect();
    let mut i = 0;
    if cs.is_empty() { return r.pick(&["''", "\"\""]).to_string(); }
    while i < cs.len() {
        let n = r.range(1, cs.len() - i);
        let part = &cs[i..i + n];
        match r.below(3) {
            0 if !part.contains(&'\'') => { o.push('\''); o.extend(part); o.push('\''); }
            1 => { o.push('"'); for &c in part { if matches!(c, '"' | '\\' | '$' | '`') { o.push('\\'); } o.push(c); } o.push('"'); }
            _ if part.contains(&'\n') => { o.push('"'); for &c in part { if matches!(c, '"' | '\\' | '$' | '`') { o.push('\\'); } o.push(c); } o.push('"'); }
            _ => for &c in part { if SPECIAL.contains(&c) { o.push('\\'); } o.push(c); },
        }
        i += n;
    }
    o
}
fn command(r: &mut Rng, words: &[String]) -> String {
    let mut o = String::new();
    let gap = |r: &mut Rng| -> &'static str { r.pick(&[" ", "  ", "\t", " \n", "   "]) };
    if r.chance(1, 6) { o.push_str(gap(r)); }
    for (i, w) in words.iter().enumerate() { if i > 0 { o.push_str(gap(r)); } o.push_str(&quoted(r, w)); }
    if r.chance(1, 6) { o.push_str(gap(r)); }
    o
}
/// expected output path
fn output(dir: &Path, words: &[String], given: Option<&str>) -> Option<PathBuf> {
    if let Some(g) = given { return Some(PathBuf::from(g)); }
    let mut args = words.iter().skip(1);
    loop { if args.next()? == "-o" { break } }
    let rel = args.next()?;
    // the name is the last component, if that is a normal one
    let p = Path::new(rel);
    let comps: Vec<Component> = p.components().collect();
    let Some(Component::Normal(name)) = comps.last() else { return None };
    let mut d = dir.to_path_buf();
    let up: PathBuf = comps[..comps.len() - 1].iter().collect();
    if up.is_absolute() || d.as_os_str() == "" { d = up } else if up.as_os_str() != "" { d = PathBuf::from(format!("{}/{}", d.display(), up.display())) }
    if let Ok(c) = std::fs::canonicalize(&d) { d = c }
    d.push(name);
    Some(d)
}
fn key(p: &str) -> Vec<String> { Path::new(p).components().map(|c| format!("{c:?}")).collect() }
#[derive(Clone)]
struct Spec { dir: String, words: Vec<String>, cmd: String, file: String, out: Option<String> }
fn spec(r: &mut Rng, base: &Path) -> Spec {
    let n = r.below(8);
    let mut words: Vec<String> = (0..n).map(|_| word(r)).collect();
    if r.chance(1, 2) && n > 0 { let k = r.range(0, n); words.insert(k, "-o".into()); if r.chance(5, 6) { let p = path(r); words.insert(k + 1, if r.chance(1, 2) { p } else { format!("{}/out.o", p) }); } }
    let cmd = command(r, &words);
    let dir = if r.chance(1, 2) { format!("{}/{}", base.display(), r.pick(&["", "real", "link", "real/sub", "link/sub/..", "nowhere"])) } else { path(r) };
    Spec { dir, words, cmd, file: path(r), out: r.chance(1, 4).then(|| path(r)) }
}
fn json(r: &mut Rng, s: &Spec) -> String {
    let mut f = vec![format!("\"directory\":{}", esc(&s.dir)), format!("\"command\": {}", esc(&s.cmd)), format!("\"file\":{}", esc(&s.file))];
    match &s.out { Some(o) => f.push(format!("\"output\":{}", esc(o))), None => if r.chance(1, 4) { f.push("\"output\":null".into()) } }
    let k = r.below(f.len()); f.rotate_left(k);
    format!("{{{}}}", f.join(r.pick(&[",", ", ", ",\n  "])))
}
fn same(e: &DatabaseEntry, s: &Spec) -> Result<(), String> {
    let ck = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("{what} of the entry with command {:?}", s.cmd)) };
    ck(e.current_dir().as_os_str() == &s.dir[..], "directory")?;
    ck(e.raw_command() == s.cmd, "raw command")?;
    ck(e.input().as_os_str() == &s.file[..], "input")?;
    let prog = e.program().map(|p| p.as_ref().to_string());
    ck(prog.as_ref() == s.words.first(), &format!("program {prog:?} (words {:?})", s.words))?;
    let args: Vec<String> = e.args().map(|a| a.as_ref().to_string()).collect();
    ck(args == s.words.iter().skip(1).cloned().collect::<Vec<_>>(), &format!("arguments {args:?} (words {:?})", s.words))?;
    let (got, want) = (e.output(), output(Path::new(&s.dir), &s.words, s.out.as_deref()));
    let eq = match (&got, &want) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false };
    ck(eq, &format!("output {got:?}, expected {want:?} (words {:?}, directory {:?}, output field {:?}),", s.words, s.dir, s.out))
}
fn compare(db: &CompilationDatabase, want: &BTreeMap<Vec<String>, Spec>) -> Result<(), String> {
    let all: Vec<_> = db.entries().collect();
    if all.len() != want.len() { return Err(format!("{} entries listed, {} distinct inputs", all.len(), want.len())); }
    let mut seen = std::collections::BTreeSet::new();
    for e in all {
        let k = key(e.input().to_str().unwrap());
        if !seen.insert(k.clone()) { return Err(format!("{:?} listed twice", e.input())); }
        same(e, want.get(&k).ok_or("an entry that was never given")?)?;
    }
    for s in want.values() { same(db.entry(Path::new(&s.file)).ok_or(format!("no entry found for {:?}", s.file))?, s)?; }
    Ok(())
}

pub fn c16(ctx: &mut Ctx) {
    let base = crate::scratch().join("c16");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(base.join("real/sub")).unwrap();
    let _ = std::os::unix::fs::symlink("real", base.join("link"));
    std::env::set_current_dir(&base).unwrap();
    let file = CompilationDatabase::location();
    let mut r = Rng::new(ctx.seed);
    for i in 0..ctx.n(12_000, 120_000) {
        if ctx.done() { break }
        let mut r = Rng::new(r.next());
        let n = if i % 50 == 0 { 0 } else { r.below(6) };
        let mut specs: Vec<Spec> = (0..n).map(|_| spec(&mut r, &base)).collect();
        if n > 1 && r.chance(1, 3) { let f = specs[0].file.clone(); specs[n - 1].file = if r.chance(1, 2) { f } else { f.replace("//", "/") + if f.ends_with('/') { "" } else { "/." } }; }
        let mut want = BTreeMap::new();
        for s in &specs { want.insert(key(&s.file), s.clone()); }
        let items: Vec<String> = specs.iter().map(|s| json(&mut r, s)).collect();
        let text = format!("[{}]", items.join(",\n"));
        let bad = r.below(14);
        ctx.case(|| text.clone(), |ctx| {
            // nothing there, something unreadable, or something that is no database
            let _ = std::fs::remove_file(file); let _ = std::fs::remove_dir(file);
            match bad {
                0 => { ctx.hit("no file"); return match CompilationDatabase::load() { Err(DatabaseLoadError::FileNotFound) => Ok(()), o => Err(format!("without a file: {o:?}")) }; }
                1 => {
                    ctx.hit("unreadable");
                    std::fs::create_dir(file).unwrap();
                    return match CompilationDatabase::load() { Err(DatabaseLoadError::IoError(_)) => Ok(()), o => Err(format!("with a directory in its place: {o:?}")) };
                }
                2 if n > 0 => {
                    ctx.hit("malformed");
                    let broken = [text[..text.len() - 1].to_string(), text.replacen("\"directory\"", "\"dir\"", 1), text.replacen('{', "{\"extra\":1,", 1), text.replacen("[", "{", 1), format!("{text} x"), text.replacen("\"file\":", "\"file\":3,\"x\":", 1)];
                    for b in &broken {
                        std::fs::write(file, b).unwrap();
                        match CompilationDatabase::load() { Err(DatabaseLoadError::ParseError(_)) => {} o => return Err(format!("{b:?} gave {:?}", o.map(|d| d.entries().count()))) }
                    }
                    return Ok(());
                }
                _ => {}
            }
            std::fs::write(file, &text).unwrap();
            let db = CompilationDatabase::load().map_err(|e| format!("refused: {e}"))?;
            if n > want.len() { ctx.hit("same input twice"); } else if n > 1 { ctx.hit("several entries"); }
            for s in want.values() { if s.out.is_none() && output(Path::new(&s.dir), &s.words, None).is_some() { ctx.tally("output from the command"); } }
            compare(&db, &want)?;
            if db.entry(Path::new("not/there/at all")).is_some() { return Err("found an entry for a path that is not there".into()); }
            let mk = |s: &Spec| DatabaseEntry::new(PathBuf::from(&s.dir), &s.cmd[..], PathBuf::from(&s.file), s.out.as_ref().map(PathBuf::from));
            if CompilationDatabase::from_entries(specs.iter().map(mk)) != db { return Err("from_entries differs from loading the same entries".into()); }
            if text.parse::<CompilationDatabase>().ok().as_ref() != Some(&db) { return Err("from_str differs from load".into()); }
            // built by hand
            let mut db2 = CompilationDatabase::new();
            let mut w2 = BTreeMap::new();
            for s in &specs {
                if w2.contains_key(&key(&s.file)) {
                    let mut d = db2.clone();
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.push(mk(s)))).is_ok() { return Err("pushing a second entry for an input was accepted".into()); }
                    continue;
                }
                db2.push(mk(s)); w2.insert(key(&s.file), s.clone());
                compare(&db2, &w2)?;
            }
            db2.clear();
            compare(&db2, &BTreeMap::new())
        });
    }
}
