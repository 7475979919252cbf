// Executable contract of the measurement of a trace (C27): a shell stands in for clang
use super::c25::{resize, terminal, Frame, Screen};
use super::show::{event, json, Scratch};
use super::vkit::{Ctx, Rng};
use crate::ui::tui::verif::{measure, start};
use cursive::event::{Event, Key};
use cursive::theme::{Color, ColorPair};
use cursive::Vec2;
use std::collections::VecDeque;
use std::path::Path;
use std::process::Command;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum End { Exit(u8), Signal(u8), Abort, Missing }
#[derive(Clone, Debug)]
struct Run { writes: Option<String>, out: usize, err: usize, end: End }
const SCRIPT: &str = r#"if [ -n "$1" ]; then printf '%s' "$2" > "$3"; fi
head -c "$4" /dev/zero | tr '\0' o
head -c "$5" /dev/zero | tr '\0' e >&2
echo $$ > "$6.new"; mv "$6.new" "$6"
case "$7" in x) exec sleep 60;; k*) kill -"${7#k}" $$; sleep 60;; esac
exit "$7""#;
fn read(p: &Path) -> Option<String> { std::fs::read_to_string(p).ok() }
/// until it holds
fn wait(what: &str, mut f: impl FnMut() -> bool) -> Result<(), String> {
    let t0 = Instant::now();
    while !f() {
        if t0.elapsed() > Duration::from_secs(12) { return Err(what.into()); }
        std::thread::sleep(Duration::from_millis(2));
    }
    Ok(())
}
fn one(run: &Run, output: &Path, dir: &Path, c: &mut Ctx) -> Result<(), String> {
    let (ready, backup) = (dir.join("ready"), output.with_extension("bak"));
    let _ = std::fs::remove_file(&ready);
    let before = read(output);
    let mut siv = start();
    siv.add_fullscreen_layer(cursive::views::TextView::new("BOTTOM"));
    let size = Vec2::new(80, 24);
    let frame = Arc::new(Mutex::new(Frame { size, cells: vec![(" ".into(), Color::TerminalDefault); size.x * size.y] }));
    let keys: Arc<Mutex<VecDeque<Event>>> = Default::default();
    let color = ColorPair { front: Color::TerminalDefault, back: Color::TerminalDefault };
    let mut ui = std::ops::DerefMut::deref_mut(&mut siv).runner(Box::new(Screen { frame: frame.clone(), keys: keys.clone(), at: Mutex::new(Vec2::zero()), color: Mutex::new(color) }));
    let mut command = Command::new(if run.end == End::Missing { "/nonexistent/clang++" } else { "/bin/sh" });
    command.args(["-c", SCRIPT, "sh", if run.writes.is_some() { "y" } else { "" }, run.writes.as_deref().unwrap_or("")]).arg(output).args([run.out.to_string(), run.err.to_string()]).arg(&ready)
        .arg(match run.end { End::Exit(k) => k.to_string(), End::Signal(k) => format!("k{k}"), _ => "x".into() });
    measure(&mut ui, command, output.into());
    macro_rules! screen { () => {{ ui.process_events(); ui.refresh(); frame.lock().unwrap().lines() }} }
    macro_rules! shows { ($s: expr) => { screen!().iter().any(|l| l.contains($s)) } }
    macro_rules! until { ($what: expr, $e: expr) => { wait(&$what, || $e).map_err(|e| { let s = screen!(); format!("{e}; on the screen: {:?}", s.iter().map(|l| l.trim()).filter(|l| !l.is_empty()).take(6).map(|l| l.chars().take(90).collect::<String>()).collect::<Vec<_>>()) })? } }
    if run.end != End::Missing {
        if !shows!("Measuring time trace") && !ready.exists() { return Err("there is no word of the measurement".into()); }
        keys.lock().unwrap().push_back(Event::from(Key::Esc));
        until!("the compiler does not get to its end", { ui.process_events(); ready.exists() });
    }
    let mut want = before.clone();
    match run.end {
        End::Exit(0) => {
            want = run.writes.clone();
            let message = match &want { Some(t) if t.ends_with("]}") => "Selected activity", _ => "Failed to process input" };
            until!(format!("{message} is not shown"), shows!(message));
            c.hit("measured");
        }
        End::Exit(_) | End::Signal(_) => {
            until!("no error is shown", shows!("clang time-trace run failed"));
            let s = screen!().join(" ").replace('│', " ").split_whitespace().collect::<Vec<_>>().join(" ");
            let status = match run.end { End::Signal(k) => format!("(signal: {k} "), End::Exit(k) => format!("(exit status: {k})"), _ => unreachable!() };
            if !s.contains(&status) { return Err(format!("{status} is not shown")); }
            for (n, name, text) in [(run.out, "stdout", "oooo"), (run.err, "stderr", "eeee")] {
                if run.out + run.err < 200 && s.contains(&format!("the following {name} output")) != (n > 0) { return Err(format!("{n} characters of {name} are shown as {s:?}")); }
                if n > 9 && run.out + run.err < 200 && !s.contains(text) { return Err(format!("what clang wrote to {name} is not shown")); }
            }
            c.hit("failed");
        }
        End::Abort => {
            if !shows!("Abort") { return Err("measurements cannot be aborted".into()); }
            keys.lock().unwrap().push_back(Event::from(Key::Enter));
            until!("the measurement does not end", { !shows!("Measuring") });
            c.hit("aborted");
        }
        End::Missing => { if !shows!("Failed to start clang") { return Err("that clang cannot start is not shown".into()); } c.hit("not started"); }
    }
    let _ = wait("", || { ui.process_events(); read(output) == want && !backup.exists() });
    let short = |t: &Option<String>| t.as_ref().map(|t| t.chars().take(30).collect::<String>());
    if read(output) != want { return Err(format!("the trace afterwards is {:?}, expected {:?} (before: {:?})", short(&read(output)), short(&want), short(&before))); }
    if backup.exists() { return Err("the backup stays".into()); }
    if before.is_some() { c.hit("something to lose") }
    if run.end != End::Missing {
        let pid = read(&ready).unwrap_or_default();
        until!("the compiler still runs", read(&Path::new("/proc").join(pid.trim()).join("stat")).is_none());
    }
    // Esc works again
    let layers = ui.screen().len();
    if layers != if run.end == End::Abort { 1 } else { 2 } { return Err(format!("{layers} layers are left")); }
    keys.lock().unwrap().push_back(Event::from(Key::Esc));
    ui.process_events();
    if ui.screen().len() != 1 { return Err("Esc does not close what is shown".into()); }
    Ok(())
}
pub fn c27(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    let dir = Scratch::new("c27");
    terminal();
    resize(80, 24);
    let output = dir.0.join("main.cc.json");
    for _ in 0..ctx.n(1_000, 20_000) {
        if ctx.done() { break; }
        let text = |r: &mut Rng| match r.below(4) { 0 => String::new(), 1 => json("")[..20].to_string(), _ => json(&event("Frontend", 5.0, (1 + r.below(1000)) as f64, None)) };
        let before = r.chance(2, 3).then(|| text(&mut r));
        let runs: Vec<Run> = (0..1 + r.below(3)).map(|_| {
            let writes = r.chance(4, 5).then(|| text(&mut r));
            let mut volume = || match r.below(8) { 0 => 300_000, 1 => 65_537, 2 => r.below(70_000), 3 | 4 => 10 + r.below(90), _ => 0 };
            let (out, err) = (volume(), volume());
            let end = match r.below(9) { 0..=2 => End::Exit(0), 8 => End::Signal(*r.pick(&[9, 15, 6])), 3 | 4 => End::Exit(1 + r.below(200) as u8), 5 | 6 => End::Abort, _ => End::Missing };
            Run { writes, out, err, end }
        }).collect();
        let _ = std::fs::remove_file(&output);
        let _ = std::fs::remove_file(output.with_extension("bak"));
        if let Some(t) = &before { std::fs::write(&output, t).unwrap(); }
        ctx.case(|| format!("the trace {before:?}, measured again by {runs:?}"), |c| {
            for (k, run) in runs.iter().enumerate() { one(run, &output, &dir.0, c).map_err(|e| format!("measurement {}: {e}", k + 1))?; }
            Ok(())
        });
    }
}
