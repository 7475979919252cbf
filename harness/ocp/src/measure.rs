// C21: measurement of a build, with this program itself standing in for the compiler
use cmakeperf::commands::{CompilationDatabase, DatabaseEntry};
use cmakeperf::measure::{Measurement, MeasureError, PollClock};
use cmakeperf::output::{load, UnitProfile};
use std::fs;
use std::io::Write;
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};
use std::sync::{atomic::{AtomicBool, AtomicUsize, Ordering}, mpsc, Arc};
use std::time::{Duration, Instant};
use vkit::{Ctx, Rng};

/// the compiler: does what its arguments say
pub fn job(args: impl Iterator<Item = String>) {
    let mut hold: Vec<Vec<u8>> = vec![];
    let mut kids = vec![];
    for a in args {
        let (k, v) = a.split_once('=').unwrap_or((&a, ""));
        let n = v.parse::<usize>().unwrap_or(0);
        match k {
            "log" => { let (f, l) = v.split_once(':').unwrap(); let mut f = fs::OpenOptions::new().append(true).create(true).open(f).unwrap(); f.write_all(format!("{l} {}\n", std::process::id()).as_bytes()).unwrap(); }
            "pwd" => fs::write(v, std::env::current_dir().unwrap().to_str().unwrap()).unwrap(),
            "stdin" => { let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap(); if !s.is_empty() { std::process::exit(99) } }
            "out" => { let _ = std::io::stdout().write_all(&vec![b'x'; n]); }
            "err" => { let _ = std::io::stderr().write_all(&vec![b'y'; n]); }
            "bytes" => { let _ = std::io::stdout().write_all(b"\xff\xfe\xc3"); let _ = std::io::stderr().write_all(b"\x80\x80"); }
            "sleep" => std::thread::sleep(Duration::from_millis(n as u64)),
            "mem" => { let mut m = vec![0u8; n << 20]; for i in (0..m.len()).step_by(1024) { m[i] = i as u8 | 1; } hold.push(m); }
            "free" => hold.clear(),
            "threads" => for _ in 0..n { std::thread::spawn(|| std::thread::sleep(Duration::from_secs(60))); },
            "child" => { let exe = std::env::current_exe().unwrap(); kids.push(std::process::Command::new(exe).arg("JOB").args(v.split('+').map(|s| s.replace('~', "="))).spawn().unwrap()); }
            "deep" => { let exe = std::env::current_exe().unwrap(); kids.push(std::process::Command::new(exe).arg("JOB").arg(format!("child={v}")).arg("join").spawn().unwrap()); }
            "join" => for mut c in kids.drain(..) { let _ = c.wait(); },
            "wait" => { let t = Instant::now(); while !Path::new(v).exists() && t.elapsed() < Duration::from_secs(60) { std::thread::sleep(Duration::from_millis(5)); } }
            "exit" => std::process::exit(n as i32),
            "abort" => std::process::abort(),
            _ => std::process::exit(98),
        }
    }
    std::hint::black_box(&hold);
}

fn meminfo() -> u64 {
    let s = fs::read_to_string("/proc/meminfo").unwrap_or_default();
    s.lines().find_map(|l| l.strip_prefix("MemAvailable:")).and_then(|l| l.trim().split(' ').next().unwrap().parse::<u64>().ok()).map_or(0, |k| k * 1024)
}
struct Run { result: mpsc::Receiver<Result<(), MeasureError>>, steps: Arc<AtomicUsize>, done: Arc<AtomicUsize>, late: Arc<AtomicBool>, m: Measurement }
fn start(csv: &Path, db: &CompilationDatabase, timed: bool, conc: Option<usize>) -> Run {
    let (tx, result) = mpsc::channel();
    let (steps, done, late) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)));
    let (s, d, d2, l) = (steps.clone(), done.clone(), done.clone(), late.clone());
    let m = Measurement::start(csv.to_path_buf(), db, timed, conc.and_then(NonZeroUsize::new),
        move || { if d.load(Ordering::SeqCst) > 0 { l.store(true, Ordering::SeqCst) } s.fetch_add(1, Ordering::SeqCst); },
        move |r| { d2.fetch_add(1, Ordering::SeqCst); let _ = tx.send(r); });
    Run { result, steps, done, late, m }
}
fn alive(pid: &str) -> bool { fs::read_to_string(format!("/proc/{pid}/stat")).map_or(false, |s| !matches!(s.rsplit(')').next().unwrap_or("").trim().chars().next(), Some('Z') | Some('X'))) }

struct Site { dir: PathBuf, exe: String, n: usize }
impl Site {
    fn new(name: &str) -> Self {
        let dir = crate::scratch().join(name);
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(dir.join("work dir")).unwrap();
        Site { dir, exe: std::env::current_exe().unwrap().to_str().unwrap().to_string(), n: 0 }
    }
    fn log(&self) -> PathBuf { self.dir.join("log") }
    fn path(&self, f: &str) -> String { self.dir.join(f).to_str().unwrap().to_string() }
    /// an entry whose command logs its start and end around `acts`
    fn entry(&mut self, acts: &[String]) -> DatabaseEntry {
        let i = self.n; self.n += 1;
        let q = |s: &str| format!("'{s}'");
        let log = self.path("log");
        let mut c = vec![q(&self.exe), "JOB".into(), q(&format!("log={log}:S{i}"))];
        c.extend(acts.iter().map(|a| q(a)));
        c.push(q(&format!("log={log}:E{i}")));
        DatabaseEntry::new(self.dir.join("work dir"), c.join(" "), self.input(i), None)
    }
    fn input(&self, i: usize) -> PathBuf { if i % 3 == 2 { PathBuf::from(format!("/somewhere/else/{i}.cpp")) } else if i % 3 == 1 { PathBuf::from(format!("relative/{i}.cpp")) } else { self.dir.join(format!("src/{i}.cpp")) } }
    /// path that the profile should show for input i, as seen from `base`
    fn shown(&self, i: usize, base: &Path) -> PathBuf {
        let p = self.input(i);
        if p.is_relative() { return p }
        let (a, b): (Vec<_>, Vec<_>) = (p.components().collect(), base.components().collect());
        let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
        std::iter::repeat(std::path::Component::ParentDir).take(b.len() - k).chain(a[k..].iter().cloned()).collect()
    }
    /// largest number of commands running at once, commands started, commands ended
    fn ran(&self) -> (usize, Vec<usize>, Vec<usize>) {
        let (mut now, mut top, mut s, mut e) = (0usize, 0, vec![], vec![]);
        for l in fs::read_to_string(self.log()).unwrap_or_default().lines() {
            let w = l.split(' ').next().unwrap();
            let i = w[1..].parse().unwrap();
            if w.starts_with('S') { now += 1; top = top.max(now); s.push(i) } else { now = now.saturating_sub(1); e.push(i) }
        }
        s.sort(); e.sort();
        (top, s, e)
    }
}
fn finish(run: Run, secs: u64) -> Result<(Result<(), MeasureError>, usize), String> {
    let r = run.result.recv_timeout(Duration::from_secs(secs)).map_err(|_| format!("no result after {secs} s"))?;
    let steps = run.steps.load(Ordering::SeqCst);
    drop(run.m);
    if run.done.load(Ordering::SeqCst) != 1 { return Err("build_done was called more than once".into()); }
    if run.late.load(Ordering::SeqCst) || run.steps.load(Ordering::SeqCst) != steps { return Err("step_done was called after build_done".into()); }
    Ok((r, steps))
}
/// everything that success promises
fn complete(site: &Site, cwd: &Path, csv: &Path, steps: usize, timed: bool, n: usize, again: bool) -> Result<Vec<UnitProfile>, String> {
    let (_, mut s, mut e) = site.ran();
    if again { s.dedup(); e.dedup(); }
    let all: Vec<usize> = (0..n).collect();
    if s != all || e != all { return Err(format!("{n} commands; started {s:?}, completed {e:?}")); }
    if steps != n { return Err(format!("step_done called {steps} times for {n} units")); }
    let rows = load(csv).map_err(|e| format!("the profile cannot be read back: {e}"))?;
    let mut got: Vec<PathBuf> = rows.iter().map(|r| r.rel_path().to_path_buf()).collect();
    let mut want: Vec<PathBuf> = (0..n).map(|i| site.shown(i, cwd)).collect();
    got.sort(); want.sort();
    if got != want { return Err(format!("units {got:?} in the profile, expected {want:?}")); }
    for r in &rows { match r.wall_time() { Some(Ok(_)) if timed => {} None if !timed => {} t => return Err(format!("time {t:?} with timing {timed}")) } }
    Ok(rows)
}

pub fn c21(ctx: &mut Ctx) {
    let cwd = crate::scratch().join("build");
    fs::create_dir_all(&cwd).unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    PollClock::set_polling_interval(Duration::from_millis(20));
    // something is there to be read from the standard input of this program
    let typed = cwd.join("typed");
    fs::write(&typed, vec![b'x'; 1 << 22]).unwrap();
    let typed = fs::File::open(&typed).unwrap();
    extern "C" { fn dup2(a: i32, b: i32) -> i32; }
    if unsafe { dup2(std::os::fd::AsRawFd::as_raw_fd(&typed), 0) } != 0 { return ctx.note("no standard input to try") }
    let mut r = Rng::new(ctx.seed);
    let kinds = ["plain", "talkative", "failing", "memory", "stopped", "rush", "default", "oom"];
    for i in 0..ctx.n(40, 250) as usize {
        if ctx.done() { break }
        let mut r = Rng::new(r.next());
        let kind = kinds[i % kinds.len()];
        let conc = if kind == "rush" { r.range(2, 4) } else { r.range(1, 4) };
        let timed = r.chance(1, 2);
        let n = match kind { "plain" => r.below(25), "talkative" => r.range(2, 8), "failing" => r.range(1, 12), "default" => r.range(2, 5), _ => 3 };
        let what = r.below(6);
        let at = r.below(n.max(1));
        // enough workers for the out-of-memory killer to end some of them
        let (conc, n) = if kind == "oom" { let c = (meminfo() / 100_000_000) as usize + r.below(4); (c, c + r.below(20)) } else { (conc, n) };
        if kind == "oom" && !(2..=700).contains(&conc) { ctx.tally("too much memory to run out of it"); continue }
        ctx.case(|| format!("{kind} build: {n} units, {conc} at once, timing {timed}, variant {what} at {at}"), |ctx| {
            let mut site = Site::new(&format!("b{i}"));
            let csv = site.dir.join("profile.csv");
            let mut res = one(ctx, &mut r, &mut site, &cwd, &csv, kind, conc, timed, n, what, at);
            if res.is_err() && matches!(kind, "memory" | "rush" | "stopped" | "default" | "oom") {
                // the machine may have been busy with something else
                fs::write(site.path("go"), "").unwrap();
                site = Site::new(&format!("b{i}"));
                if one(ctx, &mut r, &mut site, &cwd, &csv, kind, conc, timed, n, what, at).is_ok() { ctx.tally("held the second time"); res = Ok(()); }
            }
            fs::write(site.path("go"), "").unwrap();
            let _ = fs::remove_dir_all(&site.dir);
            res
        });
    }
}
fn one(ctx: &mut Ctx, r: &mut Rng, site: &mut Site, cwd: &Path, csv: &Path, kind: &str, conc: usize, timed: bool, n: usize, what: usize, at: usize) -> Result<(), String> {
    let go = site.path("go");
    match kind {
        "plain" | "talkative" => {
            let es: Vec<_> = (0..n).map(|i| {
                let mut a = vec![];
                if kind == "talkative" && (i == at || r.chance(1, 4)) {
                    match what { 0 => a.push("out=300000".into()), 1 => a.push("err=300000".into()), 2 => { a.push("err=200000".into()); a.push("out=200000".into()) }, 3 => a.push("bytes".into()), 4 => { a.push("bytes".into()); a.push("out=70000".into()); a.push("bytes".into()) }, _ => { a.push("out=10".into()); a.push("err=10".into()) } }
                }
                if r.chance(1, 3) { a.push(format!("sleep={}", r.below(30))); }
                if i == at || r.chance(1, 4) { a.push("stdin".into()); }
                if i == at { a.push(format!("pwd={}", site.path("pwd"))); }
                site.entry(&a)
            }).collect();
            let db = CompilationDatabase::from_entries(es);
            let (res, steps) = finish(start(csv, &db, timed, Some(conc)), 15)?;
            res.map_err(|e| format!("failed: {e}"))?;
            ctx.hit(if kind == "plain" { "complete build" } else { "commands with output" });
            complete(site, cwd, csv, steps, timed, n, false)?;
            let (top, _, _) = site.ran();
            if top > conc { return Err(format!("{top} commands at once")); }
            if n > 0 && fs::read_to_string(site.path("pwd")).unwrap_or_default() != site.path("work dir") { return Err("a command ran elsewhere than in its directory".into()); }
            Ok(())
        }
        "oom" => {
            let es: Vec<_> = (0..n).map(|_| site.entry(&["sleep=300".into()])).collect();
            let db = CompilationDatabase::from_entries(es);
            let (res, steps) = finish(start(csv, &db, timed, Some(conc)), 15)?;
            match res {
                Ok(()) => {}
                Err(MeasureError::OutOfMemory) => { ctx.tally("everyone killed"); return Ok(()) }
                Err(e) => return Err(format!("failed: {e}")),
            }
            let (top, s, _) = site.ran();
            ctx.hit(if s.len() > n { "killed commands are run again" } else { "none killed" });
            if top > conc + (s.len() - n) { return Err(format!("{top} commands at once")); }
            complete(site, cwd, csv, steps, timed, n, true)?;
            Ok(())
        }
        "failing" => {
            let es: Vec<_> = (0..n).map(|i| {
                let bad = i == at;
                let e = site.entry(&if bad { match what { 0 => vec!["exit=1".into()], 1 => vec!["exit=255".into(), "out=10".into()], 2 => vec!["bytes".into(), "exit=3".into()], _ => vec!["abort".into()] } } else { vec![] });
                match what {
                    4 if bad => DatabaseEntry::new(site.dir.clone(), "/not/a/compiler -c x", site.input(i), None),
                    5 if bad => DatabaseEntry::new(site.dir.clone(), " ", site.input(i), None),
                    _ => e,
                }
            }).collect();
            let db = CompilationDatabase::from_entries(es);
            let (res, steps) = finish(start(csv, &db, timed, Some(conc)), 15)?;
            ctx.hit("failing command");
            match res { Err(MeasureError::Job(_)) if steps < n => Ok(()), o => Err(format!("{o:?} and {steps} steps done")) }
        }
        "default" => {
            let es: Vec<_> = (0..n).map(|_| site.entry(&["sleep=30".into()])).collect();
            let db = CompilationDatabase::from_entries(es);
            let (res, steps) = finish(start(csv, &db, timed, None), 15)?;
            res.map_err(|e| format!("failed: {e}"))?;
            ctx.hit("default concurrency");
            let (top, _, _) = site.ran();
            if timed && top > 1 { return Err(format!("{top} timed commands at once")); }
            let par = std::thread::available_parallelism().map_or(4, usize::from);
            if !timed && par >= n && top < n { ctx.tally("machine too busy to run everything at once") }
            for row in complete(site, cwd, csv, steps, timed, n, false)? { if let Some(Ok(t)) = row.wall_time() { if t < Duration::from_millis(30) { return Err(format!("a command of 30 ms took {t:?}")); } } }
            Ok(())
        }
        "memory" | "rush" => {
            // commands that hold a known amount of memory until told to end
            let mib = 60 + 20 * r.below(5);
            let mut es = vec![];
            let quick = if kind == "rush" { 150 } else { 0 };
            for _ in 0..quick { es.push(site.entry(&[])); }
            let wait = format!("wait={go}");
            let hog = match what {
                0 | 1 => vec![format!("mem={mib}"), wait],
                2 => vec![format!("threads={}", 3), format!("mem={mib}"), wait],
                3 => vec![format!("child=mem~{mib}+wait~{go}"), wait, "join".into()],
                4 => vec![format!("mem={}", mib / 2), format!("deep=mem~{}+wait~{go}", mib - mib / 2), wait, "join".into()],
                _ => vec![format!("mem={mib}"), "sleep=900".into(), "free".into(), wait],
            };
            es.push(site.entry(&hog));
            let m = quick;
            let db = CompilationDatabase::from_entries(es);
            let run = start(csv, &db, timed, Some(conc));
            // wait until it is the only one left, then leave time for many looks at it
            let t = Instant::now();
            while site.ran().1.last() != Some(&m) || (kind == "rush" && site.ran().2.len() < quick) { if t.elapsed() > Duration::from_secs(12) { return Err("the commands do not get started".into()); } std::thread::sleep(Duration::from_millis(10)); }
            std::thread::sleep(Duration::from_millis(1500));
            fs::write(&go, "").unwrap();
            let (res, steps) = finish(run, 12)?;
            res.map_err(|e| format!("failed: {e}"))?;
            ctx.hit(if kind == "rush" { "memory of a command after many quick ones" } else { "memory of a command" });
            let rows = complete(site, cwd, csv, steps, timed, quick + 1, false)?;
            let row = rows.iter().find(|x| x.rel_path() == site.shown(m, cwd)).unwrap();
            let got = row.max_rss_bytes() as f64 / (1 << 20) as f64;
            if got < mib as f64 || got > mib as f64 * 1.3 + 30.0 { return Err(format!("a command using {mib} MiB of memory was measured at {got:.1} MiB")); }
            if let Some(Ok(t)) = row.wall_time() { if t < Duration::from_millis(1500) { return Err(format!("a command of 1.5 s took {t:?}")); } }
            Ok(())
        }
        _ => {
            // stopped from outside while commands, their children and many more are pending
            let pids = site.path("pids");
            let mut es = vec![];
            let before = if what % 2 == 0 { 150 } else { 0 };
            for _ in 0..before { es.push(site.entry(&[])); }
            for k in 0..6 { es.push(site.entry(&[format!("{}=log~{pids}:K{k}+wait~{go}", if k % 2 == 0 { "deep" } else { "child" }), format!("log={pids}:J{k}"), format!("wait={go}"), "join".into()])); }
            let db = CompilationDatabase::from_entries(es);
            let run = start(csv, &db, timed, Some(conc));
            let t = Instant::now();
            while fs::read_to_string(&pids).unwrap_or_default().lines().count() < 2 * conc { if t.elapsed() > Duration::from_secs(12) { return Err("the commands do not get started".into()); } std::thread::sleep(Duration::from_millis(10)); }
            std::thread::sleep(Duration::from_millis(500));
            let t = Instant::now();
            let Run { result, done, m, .. } = run;
            drop(m);
            let took = t.elapsed();
            if took > Duration::from_secs(3) { return Err(format!("dropping the measurement took {took:?}")); }
            if done.load(Ordering::SeqCst) != 1 { return Err(format!("build_done was called {} times", done.load(Ordering::SeqCst))); }
            ctx.hit("stopped build");
            match result.try_recv() { Ok(Err(MeasureError::Killed)) => {} o => return Err(format!("a stopped measurement ends with {o:?}")) }
            let t = Instant::now();
            loop {
                let text = fs::read_to_string(&pids).unwrap_or_default();
                let left: Vec<&str> = text.lines().filter(|l| alive(l.split(' ').nth(1).unwrap())).collect();
                if left.is_empty() { return Ok(()); }
                if t.elapsed() > Duration::from_secs(3) { return Err(format!("processes still running after the measurement was dropped: {left:?}")); }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}
