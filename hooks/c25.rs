// Executable contract of the profiles of the text user interface (C25): sessions on a recorded screen
use super::c24::text_of;
use super::show::{event, json, Scratch};
use super::vkit::{Ctx, Rng, RESULT_FD};
use crate::ui::tui::verif::{load, start};
use crate::ui::verif as ui;
use clang_time_trace::{ActivityTraceId, ClangTrace};
use cursive::theme::{Color, ColorPair, Effect};
use cursive::Vec2;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use cursive::event::{Event, Key};
use std::collections::HashMap;
use unicode_width::UnicodeWidthStr;

// a terminal of the wanted size as standard output
extern "C" {
    fn posix_openpt(flags: i32) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn ioctl(fd: i32, request: u64, ...) -> i32;
}
pub fn resize(w: u16, h: u16) {
    let size: [u16; 4] = [h, w, 0, 0];
    assert_eq!(unsafe { ioctl(1, 0x5414, &size) }, 0, "no terminal");
}
pub fn terminal() {
    let saved = unsafe { dup(1) };
    let pt = unsafe { posix_openpt(2 | 0o400) };
    assert!(saved >= 0 && pt >= 0 && unsafe { dup2(pt, 1) } == 1, "no terminal");
    RESULT_FD.store(saved, std::sync::atomic::Ordering::SeqCst);
}

const TITLES: [&[&str]; 3] = [&["%Total", "Self%Tot"], &["%Parent", "Self%Par"], &["Time", "SelfTime"]];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act { Unit, Flat, Move(i8), Enter, Esc, Sort(usize), Trail(usize), Dialog(char, char), Load(usize) }
#[derive(Clone)]
struct Row { total: f64, own: f64, cells: Vec<String>, full: String }
#[derive(Clone)]
struct Level { of: Option<ActivityTraceId>, flat: bool, span: f64, selected: Option<(String, String)> }
#[derive(Clone)]
struct Seen { lines: Vec<String>, titles: Vec<(String, char)>, rows: Vec<Vec<String>>, selected: Vec<usize>, pane: String }

/// a screen that keeps what is shown on it
#[derive(Clone)]
pub struct Frame { pub size: Vec2, pub cells: Vec<(String, Color)> }
impl Frame { pub fn lines(&self) -> Vec<String> { self.cells.chunks(self.size.x).map(|l| l.iter().map(|c| c.0.as_str()).collect()).collect() } fn shows(&self, s: &str) -> bool { self.lines().iter().any(|l| l.contains(s)) } }
pub struct Screen { pub frame: Arc<Mutex<Frame>>, pub keys: Arc<Mutex<VecDeque<Event>>>, pub at: Mutex<Vec2>, pub color: Mutex<ColorPair> }
impl cursive::backend::Backend for Screen {
    fn poll_event(&mut self) -> Option<Event> { self.keys.lock().unwrap().pop_front() }
    fn set_title(&mut self, _: String) {}
    fn refresh(&mut self) {}
    fn has_colors(&self) -> bool { true }
    fn screen_size(&self) -> Vec2 { self.frame.lock().unwrap().size }
    fn move_to(&self, pos: Vec2) { *self.at.lock().unwrap() = pos }
    fn print(&self, text: &str) {
        let (mut f, mut at, back) = (self.frame.lock().unwrap(), self.at.lock().unwrap(), self.color.lock().unwrap().back);
        for c in text.chars() {
            let k = at.y * f.size.x + at.x;
            if at.x < f.size.x && k < f.cells.len() { f.cells[k].0.clear(); f.cells[k].0.push(c); f.cells[k].1 = back; }
            at.x += 1;
        }
    }
    fn clear(&self, color: Color) { for c in &mut self.frame.lock().unwrap().cells { c.0.clear(); c.0.push(' '); c.1 = color; } }
    fn set_color(&self, colors: ColorPair) -> ColorPair { std::mem::replace(&mut *self.color.lock().unwrap(), colors) }
    fn set_effect(&self, _: Effect) {}
    fn unset_effect(&self, _: Effect) {}
}
fn see(screen: &Frame, footer: usize) -> Result<Seen, String> {
    let size = screen.size;
    let lines = screen.lines();
    let bar = lines.iter().position(|l| l.contains("Selected activity")).ok_or_else(|| format!("no profile on the screen: {:?}", lines.iter().filter(|l| !l.trim().is_empty()).take(5).collect::<Vec<_>>()))?;
    let titles = lines[0].split('╷').map(|t| { let t = t.trim(); let k = t.rfind('[').unwrap_or(t.len()); (t[..k].trim().to_string(), t[k..].chars().nth(1).unwrap_or('?')) }).collect();
    let back = |y: usize| screen.cells[y * size.x].1;
    let (mut rows, mut selected) = (vec![], vec![]);
    for y in 2..bar {
        let cells: Vec<String> = lines[y].split('┆').enumerate().map(|(k, c)| if k > 0 { c[1.min(c.len())..].trim_end().to_string() } else { c.trim_end().to_string() }).collect();
        if cells.iter().all(|c| c.is_empty()) { continue; }
        if back(y) != back(1) { selected.push(rows.len()); }
        rows.push(cells);
    }
    let pane: String = lines[bar + 1..size.y - footer].concat().chars().filter(|c| !c.is_whitespace()).collect();
    Ok(Seen { lines, titles, rows, selected, pane })
}
fn percent_agrees(got: &str, want: f64) -> bool { got.strip_suffix('%').map_or(false, |g| g.split('.').nth(1).map_or(false, |d| d.len() == 2) && g.parse::<f64>().map_or(false, |g| (g - want).abs() < 0.00501 + want.abs() * 1e-9)) }

struct Session<'a> {
    t: ClangTrace, loaded: bool, levels: Vec<Level>, unit: usize, order: [char; 3], key: usize, total: f64, w: u16,
    texts: HashMap<(Option<ActivityTraceId>, bool, u16), Vec<Row>>, c: &'a mut Ctx,
}
impl Session<'_> {
    fn rows(&mut self, l: &Level) -> Vec<Row> {
        let room = self.w.saturating_sub(if l.flat { 16 } else { 31 });
        if let Some(r) = self.texts.get(&(l.of, l.flat, room)) { return r.clone(); }
        let ids: Vec<_> = match (l.of, l.flat) {
            (None, false) => self.t.root_activities().map(|a| a.id()).collect(),
            (None, true) => self.t.all_activities().map(|a| a.id()).collect(),
            (Some(p), false) => self.t.activity_trace(p).direct_children().map(|a| a.id()).collect(),
            (Some(p), true) => self.t.activity_trace(p).all_children().map(|a| a.id()).collect(),
        };
        let rows: Vec<Row> = ids.into_iter().map(|id| {
            let (line, full) = (text_of(&mut self.t, id, Some(room)), text_of(&mut self.t, id, None));
            let a = self.t.activity_trace(id);
            let mark = if a.direct_children().count() > 0 { "+" } else { " " };
            Row { total: a.duration(), own: a.self_duration(), cells: vec![if l.flat { line } else { format!("{mark}{line}") }.trim_end().to_string()], full }
        }).collect();
        self.texts.insert((l.of, l.flat, room), rows.clone());
        rows
    }
    fn time_ok(&self, got: &str, want: f64, l: &Level) -> bool {
        match self.unit {
            2 => got == ui::duration(want),
            u => { let norm = if u == 0 { self.total } else { l.span }; percent_agrees(got, if norm > 0.0 { want * 100.0 / norm } else { 0.0 }) }
        }
    }
    /// what is shown is the top level
    fn check(&mut self, s: &Seen) -> Result<(), String> {
        let l = self.levels.last().unwrap().clone();
        let titles: Vec<&str> = if l.flat { vec![TITLES[self.unit][1], "Activity"] } else { vec![TITLES[self.unit][0], "Self", "Activity"] };
        let columns: &[usize] = if l.flat { &[1, 2] } else { &[0, 1, 2] };
        let key = if l.flat { self.key.max(1) } else { self.key };
        let want: Vec<(String, char)> = titles.iter().zip(columns).map(|(t, k)| (t.to_string(), if *k == key { self.order[key] } else { ' ' })).collect();
        if s.titles != want { return Err(format!("columns {:?}, expected {want:?}", s.titles)); }
        let mut rows = self.rows(&l);
        if s.rows.len() != rows.len() { return Err(format!("{} rows for {} activities: {:?}", s.rows.len(), rows.len(), s.rows)); }
        let up = self.order[key] == '^';
        rows.sort_by(|a, b| {
            let o = match key { 0 => a.total.partial_cmp(&b.total).unwrap(), 1 => a.own.partial_cmp(&b.own).unwrap(), _ => a.cells[0].cmp(&b.cells[0]) };
            if up { o } else { o.reverse() }
        });
        let same = |a: &Row, b: &Row| match key { 0 => a.total == b.total, 1 => a.own == b.own, _ => a.cells == b.cells };
        let row_ok = |me: &Self, got: &[String], r: &Row| got.len() == columns.len() && got[got.len() - 1] == r.cells[0]
            && me.time_ok(&got[got.len() - 2], r.own, &l) && (l.flat || me.time_ok(&got[0], r.total, &l));
        let mut k = 0;
        let mut chosen: Vec<Vec<Row>> = vec![];
        while k < rows.len() {
            let n = rows[k..].iter().take_while(|r| same(&rows[k], r)).count();
            let group = rows[k..k + n].to_vec();
            let mut left = group.clone();
            for got in &s.rows[k..k + n] {
                let Some(p) = left.iter().position(|r| row_ok(self, got, r)) else {
                    return Err(format!("row {got:?} is none of those expected in its place ({:?})", left.iter().map(|r| (r.total, r.own, &r.cells[0])).collect::<Vec<_>>()));
                };
                left.remove(p);
                chosen.push(group.iter().filter(|r| row_ok(self, got, r)).cloned().collect());
            }
            k += n;
        }
        if rows.is_empty() { if !s.pane.is_empty() { return Err(format!("{:?} described in a profile without activities", s.pane)); } return Ok(()); }
        if s.selected.len() != 1 { return Err(format!("rows {:?} are highlighted", s.selected)); }
        let strip = |t: &str| t.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        let sel = s.selected[0];
        if !chosen[sel].iter().any(|r| strip(&r.full) == s.pane) { return Err(format!("row {:?} is selected but {:?} is described, expected {:?}", s.rows[sel], s.pane, chosen[sel].iter().map(|r| &r.full).collect::<Vec<_>>())); }
        let now = (s.rows[sel].last().unwrap().clone(), s.pane.clone());
        if let Some(old) = &l.selected { if *old != now { return Err(format!("the selection moved from {old:?} to {now:?}")); } }
        self.levels.last_mut().unwrap().selected = Some(now);
        Ok(())
    }
}
fn session(traces: &[String], acts: &[Act], below: usize, w: u16, h: u16, path: &std::path::Path, c: &mut Ctx) -> Result<(), String> {
    resize(w, h);
    let mut siv = start();
    // what the profiles are shown above, if anything
    for k in 0..below { siv.add_fullscreen_layer(cursive::views::TextView::new(format!("BOTTOM{k}"))); }
    let size = Vec2::new(w as usize, h as usize);
    let frame = Arc::new(Mutex::new(Frame { size, cells: vec![(" ".into(), Color::TerminalDefault); size.x * size.y] }));
    let keys = Arc::new(Mutex::new(VecDeque::new()));
    let color = ColorPair { front: Color::TerminalDefault, back: Color::TerminalDefault };
    let screen = Box::new(Screen { frame: frame.clone(), keys: keys.clone(), at: Mutex::new(Vec2::zero()), color: Mutex::new(color) });
    let mut run = std::ops::DerefMut::deref_mut(&mut siv).runner(screen);
    let parse = w >= 50;
    macro_rules! screen { () => {{ run.refresh(); frame.lock().unwrap().clone() }} }
    let mut m = Session { t: ClangTrace::from_str_(&json(&traces[0])), loaded: false, levels: vec![], unit: 0, order: ['v', 'v', '^'], key: 0, total: 0.0, w, texts: HashMap::new(), c };
    let mut prev: Option<Seen> = None;
    for (step, act) in acts.iter().enumerate() {
        let mut one = || -> Result<(), String> {
            macro_rules! press { ($e: expr) => {{ keys.lock().unwrap().push_back(Event::from($e)); run.process_events(); }} }
            macro_rules! footer { () => {{ let f = ui::metadata(&m.t, w); let last = f.lines().last().unwrap_or("").to_string(); let sep = if last.width() + 1 + 17 <= w as usize { " " } else { "\n" }; format!("{f}{sep}Press H for help.").lines().map(|l| l.trim().to_string()).collect::<Vec<_>>() }} }
            if let Act::Load(k) = act {
                if m.loaded { return Ok(()); }
                std::fs::write(path, json(&traces[*k])).unwrap();
                load(&mut run, path);
                m.t = ClangTrace::from_str_(&json(&traces[*k]));
                let t0 = std::time::Instant::now();
                loop {
                    run.process_events();
                    let s = screen!();
                    if !parse { if run.screen().len() == below + 1 && !s.shows("Abort") { break } }
                    else if see(&s, 1).is_ok() { break }
                    if t0.elapsed().as_secs() > 10 { return Err("the profile is not shown".into()); }
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                m.loaded = true; m.unit = 0; m.texts.clear();
                m.total = m.t.root_activities().map(|a| a.duration()).sum();
                m.levels = vec![Level { of: None, flat: false, span: m.total, selected: None }];
            }
            if !m.loaded { return Ok(()); }
            let top = m.levels.last().unwrap().clone();
            if !parse {
                // the screen is too narrow to be read back
                match act { Act::Unit => press!('u'), Act::Flat => press!('f'), Act::Enter => press!(Key::Enter), Act::Esc => press!(Key::Esc), Act::Move(n) => press!(if *n > 0 { Key::Down } else { Key::Up }), _ => () }
                screen!();
                m.c.hit("narrow screen");
                if run.screen().len() < below + 1 { m.loaded = false }
                return Ok(());
            }
            let foot = footer!();
            let before = match prev.take() { Some(s) => s, None => see(&screen!(), foot.len())? };
            let empty = before.rows.is_empty();
            match act {
                Act::Load(_) => m.c.hit("loaded"),
                Act::Unit => { press!('u'); m.unit = (m.unit + 1) % 3; m.c.hit("unit") }
                Act::Flat => { press!('f'); let l = m.levels.last_mut().unwrap(); l.flat = !l.flat; l.selected = None; m.c.hit("flat") }
                Act::Move(n) => {
                    if empty { prev = Some(before); return Ok(()); }
                    for _ in 0..n.unsigned_abs() { press!(if *n > 0 { Key::Down } else { Key::Up }) }
                    m.levels.last_mut().unwrap().selected = None;
                    let want = (before.selected[0] as i64 + *n as i64).clamp(0, before.rows.len() as i64 - 1);
                    let after = see(&screen!(), foot.len())?;
                    if after.rows != before.rows || after.selected != [want as usize] { return Err(format!("row {:?} is selected instead of {want}", after.selected)); }
                    m.c.tally("moved");
                }
                Act::Enter => {
                    press!(Key::Enter);
                    if !empty && !top.flat && before.rows[before.selected[0]].last().unwrap().starts_with('+') {
                        // the activity is known by its row; rows that look alike are told apart by what is below them
                        let got = &before.rows[before.selected[0]];
                        let kids: Vec<_> = match top.of { None => m.t.root_activities().map(|a| a.id()).collect::<Vec<_>>(), Some(p) => m.t.activity_trace(p).direct_children().map(|a| a.id()).collect() };
                        let rows = m.rows(&top);
                        let may: Vec<_> = kids.iter().zip(rows).filter(|(_, r)| r.cells[0] == got[2] && m.time_ok(&got[0], r.total, &top) && m.time_ok(&got[1], r.own, &top) && r.full.chars().filter(|c| !c.is_whitespace()).collect::<String>() == before.pane).map(|(k, r)| (*k, r.total)).collect();
                        let s = see(&screen!(), foot.len())?;
                        let mut why = String::new();
                        for (id, span) in may {
                            m.levels.push(Level { of: Some(id), flat: false, span, selected: None });
                            match m.check(&s) { Ok(()) => { m.c.hit("zoomed"); prev = Some(s); return Ok(()) } Err(e) => { why = e; m.levels.pop(); } }
                        }
                        return Err(format!("zooming on {got:?}: {why}"));
                    }
                    m.c.tally("nothing to zoom on");
                }
                Act::Esc => {
                    press!(Key::Esc);
                    if below > 0 || m.levels.len() > 1 { m.levels.pop(); m.c.hit("left"); } else { m.c.hit("nothing below"); }
                    if m.levels.is_empty() {
                        m.loaded = false;
                        let s = screen!();
                        if !s.shows(&format!("BOTTOM{}", below - 1)) || run.screen().len() != below { return Err("Esc does not leave the profile".into()); }
                        return Ok(());
                    }
                }
                Act::Sort(k) => {
                    let cols: &[usize] = if top.flat { &[1, 2] } else { &[0, 1, 2] };
                    let (from, to) = (before.titles.iter().position(|t| t.1 != ' ').unwrap_or(0), k % cols.len());
                    press!(Key::Right);
                    for _ in from..to { press!(Key::Right) }
                    for _ in to..from { press!(Key::Left) }
                    press!(Key::Enter);
                    press!(Key::Down);
                    let s = see(&screen!(), foot.len())?;
                    let Some((title, order)) = s.titles.get(to).filter(|t| t.1 != ' ') else { return Err(format!("sorting by column {to} leads to {:?}", s.titles)) };
                    if from == to && *order == before.titles[from].1 { return Err(format!("sorting by {title} again keeps the order {order}")); }
                    m.key = cols[to]; m.order[cols[to]] = *order;
                    m.c.hit("sorted");
                }
                Act::Trail(k) => {
                    let n = m.levels.len();
                    let k = k % n;
                    press!('b');
                    let s = screen!();
                    if !s.shows("Backtrace") { return Err("B does not show the backtrace".into()); }
                    for _ in 0..k { press!(Key::Down) }
                    press!(Key::Enter);
                    m.levels.truncate(n - k);
                    m.c.hit("backtrace");
                }
                Act::Dialog(a, b) => {
                    press!(*a); screen!(); press!(*b);
                    let s = screen!();
                    if run.screen().len() != m.levels.len() + 1 + below { return Err(format!("{a} then {b} lead to {} layers above {} profiles", run.screen().len() - m.levels.len() - below, m.levels.len())); }
                    drop(s);
                    press!(Key::Esc);
                    m.c.tally("dialog");
                }
            }
            let s = see(&screen!(), foot.len())?;
            let shown: Vec<String> = s.lines[h as usize - foot.len()..].iter().map(|l| l.trim().to_string()).collect();
            if shown != foot { return Err(format!("the screen ends with {shown:?}, expected {foot:?}")); }
            if run.screen().len() != m.levels.len() + below { return Err(format!("{} layers for {} profiles", run.screen().len(), m.levels.len())); }
            m.check(&s)?;
            prev = Some(s);
            Ok(())
        };
        one().map_err(|e| format!("step {step} ({act:?}): {e}"))?;
    }
    Ok(())
}
trait FromText { fn from_str_(s: &str) -> Self; }
impl FromText for ClangTrace { fn from_str_(s: &str) -> Self { use std::str::FromStr; ClangTrace::from_str(s).unwrap() } }

const NAMES: &[(&str, Option<&str>)] = &[("Source", Some("/usr/include/c++/12/vector")), ("Source", Some("/a.h")), ("ParseClass", Some("std::vector<int, std::allocator<int>>")), ("Frontend", None), ("Backend", None),
    ("InstantiateFunction", Some("std::copy<char const*>")), ("OptFunction", Some("_ZN3foo3barEv")), ("PerformPendingInstantiations", None), ("CodeGen Function", Some("main")), ("RunPass", Some("Z")), ("RunPass", Some("A")), ("ParseClass", Some("a"))];
fn forest(r: &mut Rng, start: usize, len: usize, depth: usize, left: &mut usize, names: usize, out: &mut String) {
    if *left == 0 { return; }
    *left -= 1;
    if depth > 0 {
        let n = r.below(5);
        let mut cuts: Vec<usize> = (0..2 * n).map(|_| start + r.below(len + 1)).collect();
        if r.chance(1, 3) { let step = len / (n + 1); cuts = (0..n).flat_map(|k| [start + k * step, start + (k + 1) * step]).collect(); }
        cuts.sort();
        for c in cuts.chunks(2) { forest(r, c[0], c[1] - c[0], depth - 1, left, names, out) }
    }
    let (name, detail) = NAMES[r.below(names)];
    out.push_str(&event(name, start as f64, len as f64, detail));
}
pub fn c25(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    let dir = Scratch::new("c25");
    terminal();
    for _ in 0..ctx.n(4_000, 60_000) {
        if ctx.done() { break; }
        let traces: Vec<String> = (0..2).map(|_| {
            let mut s = String::new();
            let (mut left, mut at, names) = (1 + r.below(24), 10, 1 + r.below(NAMES.len()));
            let roots = r.below(4);
            for _ in 0..roots { let len = *r.pick(&[0, 7, 100, 5_000, 1_234_567]); let d = r.below(4); forest(&mut r, at, len, d, &mut left, names, &mut s); at += len + r.below(5); }
            s
        }).collect();
        let w = match r.below(8) { 0 => 1 + r.below(49), 1 => 50 + r.below(20), _ => 70 + r.below(60) } as u16;
        let below = *r.pick(&[1, 1, 0, 3]);
        let mut acts = vec![Act::Load(0)];
        for _ in 0..5 + r.below(40) {
            acts.push(match r.below(16) {
                0 | 1 => Act::Unit, 2 | 3 => Act::Flat, 4 | 5 => Act::Move([1, -1, 2, 5, 40, -40][r.below(6)]), 6..=9 => Act::Enter, 10 => Act::Esc, 11 | 12 => Act::Sort(r.below(3)), 13 => Act::Trail(r.below(4)),
                14 => Act::Dialog(['h', 'q', 'b'][r.below(3)], ['h', 'q', 'b'][r.below(3)]), _ => Act::Load(r.below(2)),
            });
        }
        ctx.case(|| format!("keys {acts:?} above {below} other layers on a terminal of {w} columns where the traces have the events {traces:?}"), |c| session(&traces, &acts, below, w, 40, &dir.0.join("t.json"), c));
    }
}
