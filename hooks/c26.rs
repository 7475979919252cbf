// Executable contract of the table of a build (C26): sessions on a recorded screen
use super::c25::{resize, terminal, Frame};
use super::show::Scratch;
use super::vkit::{Ctx, Rng};
use crate::ui::tui::verif::show_build;
use crate::ui::verif as ui;
use cmakeperf::output::BuildProfile;
use cursive::event::{Event, Key};
use cursive::theme::{Color, ColorPair, Effect};
use cursive::Vec2;
use std::collections::VecDeque;
use std::path::Path;
use std::sync::{Arc, Mutex};
use unicode_width::UnicodeWidthStr;

/// a screen that is photographed before every key
struct Camera { frame: Mutex<Frame>, keys: VecDeque<Key>, ready: bool, film: Arc<Mutex<Vec<Frame>>>, at: Mutex<Vec2>, color: Mutex<ColorPair> }
impl cursive::backend::Backend for Camera {
    fn poll_event(&mut self) -> Option<Event> {
        self.ready = !self.ready;
        if !self.ready { return None; }
        self.film.lock().unwrap().push(self.frame.lock().unwrap().clone());
        Some(self.keys.pop_front().map_or(Event::Exit, Event::Key))
    }
    fn set_title(&mut self, _: String) {}
    fn refresh(&mut self) {}
    fn has_colors(&self) -> bool { true }
    fn screen_size(&self) -> Vec2 { self.frame.lock().unwrap().size }
    fn move_to(&self, pos: Vec2) { *self.at.lock().unwrap() = pos }
    fn print(&self, text: &str) {
        let (mut f, mut at, back) = (self.frame.lock().unwrap(), self.at.lock().unwrap(), self.color.lock().unwrap().back);
        for c in text.chars() {
            let k = at.y * f.size.x + at.x;
            if at.x < f.size.x && k < f.cells.len() { f.cells[k].0.clear(); f.cells[k].0.push(c); f.cells[k].1 = back; }
            at.x += 1;
        }
    }
    fn clear(&self, color: Color) { for c in &mut self.frame.lock().unwrap().cells { c.0.clear(); c.0.push(' '); c.1 = color; } }
    fn set_color(&self, colors: ColorPair) -> ColorPair { std::mem::replace(&mut *self.color.lock().unwrap(), colors) }
    fn set_effect(&self, _: Effect) {}
    fn unset_effect(&self, _: Effect) {}
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act { Move(i8), Sort(usize) }
#[derive(Clone, Debug)]
struct Unit { file: String, rss: u64, time: Option<f32> }
struct Seen { titles: Vec<(String, char)>, rows: Vec<Vec<String>>, selected: Vec<usize> }
fn see(f: &Frame) -> Result<Seen, String> {
    let (lines, size) = (f.lines(), f.size);
    if lines[size.y - 1].trim() != "Press H for help." { return Err(format!("the screen ends with {:?}", lines[size.y - 1].trim())); }
    let titles = lines[0].split('╷').map(|t| { let t = t.trim(); let k = t.rfind('[').unwrap_or(t.len()); (t[..k].trim().to_string(), t[k..].chars().nth(1).unwrap_or(' ')) }).collect();
    let back = |y: usize| f.cells[y * size.x].1;
    let (mut rows, mut selected) = (vec![], vec![]);
    for y in 2..size.y - 1 {
        let cells: Vec<String> = lines[y].split('┆').enumerate().map(|(k, c)| if k > 0 { c[1.min(c.len())..].trim_end().to_string() } else { c.trim_end().to_string() }).collect();
        if cells.iter().all(|c| c.is_empty()) { continue; }
        if back(y) != back(1) { selected.push(rows.len()); }
        rows.push(cells);
    }
    Ok(Seen { titles, rows, selected })
}
fn number(got: &str, unit: &str, decimals: usize, want: f64) -> bool {
    got.strip_suffix(unit).map_or(false, |g| g.split('.').nth(1).map_or(false, |d| d.len() == decimals) && g.parse::<f64>().map_or(false, |g| (g - want).abs() <= 0.5001 * 0.1f64.powi(decimals as i32) + want.abs() * 1e-6))
}
/// a path that fits is shown as it is, others as in C08
fn file(path: &str, room: u16) -> String { if path.width() <= room as usize { path.into() } else { ui::parts(Path::new(path).components().map(|p| p.as_os_str().to_str().unwrap()), room) } }
fn session(units: &[Unit], timed: bool, acts: &[Act], w: u16, h: u16, dir: &Path, c: &mut Ctx) -> Result<(), String> {
    resize(w, h);
    let mut csv = String::from(if timed { "file,max_rss,time\n" } else { "file,max_rss\n" });
    for u in units { csv.push_str(&format!("\"{}\",{}", u.file, u.rss)); if let Some(t) = u.time { csv.push_str(&format!(",{t}")) } csv.push('\n') }
    std::fs::write(dir.join("p.csv"), csv).unwrap();
    let profile: BuildProfile = cmakeperf::output::load(dir.join("p.csv")).map_err(|e| format!("cannot load the profile: {e}"))?;
    let timed = timed && !units.is_empty();
    // keys, and how many there are before each state that is checked
    let (mut keys, mut stops, mut from) = (VecDeque::new(), vec![0], 0);
    let columns = if timed { 3 } else { 2 };
    for a in acts {
        match a {
            Act::Move(n) => for _ in 0..n.unsigned_abs() { keys.push_back(if *n > 0 { Key::Down } else { Key::Up }) },
            Act::Sort(k) => {
                let to = k % columns;
                keys.push_back(Key::Right);
                for _ in from..to { keys.push_back(Key::Right) }
                for _ in to..from { keys.push_back(Key::Left) }
                keys.extend([Key::Enter, Key::Down]);
                from = to;
            }
        }
        stops.push(keys.len());
    }
    let film = Arc::new(Mutex::new(vec![]));
    let size = Vec2::new(w as usize, h as usize);
    let color = ColorPair { front: Color::TerminalDefault, back: Color::TerminalDefault };
    let camera = Camera { frame: Mutex::new(Frame { size, cells: vec![(" ".into(), Color::TerminalDefault); size.x * size.y] }), keys, ready: false, film: film.clone(), at: Mutex::new(Vec2::zero()), color: Mutex::new(color) };
    show_build(Box::new(camera), profile);
    if w < 50 { c.hit("narrow screen"); return Ok(()); }
    let film = film.lock().unwrap();
    let room = w - if timed { 26 } else { 15 };
    let cells_ok = |got: &[String], u: &Unit| got.len() == columns && number(&got[0], " GB", 2, u.rss as f64 / 1e9) && (!timed || number(&got[1], "s", 1, u.time.unwrap() as f64))
        && got[columns - 1] == file(&u.file, room);
    let (mut key, mut order) = (0, 'v');
    let mut prev: Option<Seen> = None;
    for (step, at) in stops.iter().enumerate() {
        let what = if step == 0 { "at first".into() } else { format!("after {:?}", acts[step - 1]) };
        let mut one = || -> Result<(), String> {
            let s = see(film.get(*at).ok_or("the interface ended")?)?;
            let ids: Vec<usize> = if timed { vec![0, 1, 2] } else { vec![0, 2] };
            if let (true, Some(p)) = (step > 0, &prev) {
                match acts[step - 1] {
                    Act::Move(n) if !units.is_empty() => {
                        let want = (p.selected[0] as i64 + n as i64).clamp(0, units.len() as i64 - 1);
                        if s.rows != p.rows || s.selected != [want as usize] { return Err(format!("row {:?} is selected instead of {want}", s.selected)); }
                        c.tally("moved");
                    }
                    Act::Sort(k) => {
                        let to = k % columns;
                        let o = s.titles.get(to).map_or(' ', |t| t.1);
                        if !['^', 'v'].contains(&o) { return Err(format!("sorting by column {to} leads to {:?}", s.titles)); }
                        if ids[to] == key { if o == order { return Err(format!("choosing {:?} again keeps the order {o}", s.titles[to].0)); } c.hit("reversed") }
                        key = ids[to]; order = o;
                        c.hit("sorted");
                    }
                    _ => (),
                }
            }
            let want: Vec<(String, char)> = ids.iter().map(|k| (["Memory", "Time", "Source file"][*k].to_string(), if *k == key { order } else { ' ' })).collect();
            if s.titles != want { return Err(format!("columns {:?}, expected {want:?}", s.titles)); }
            if s.rows.len() != units.len() { return Err(format!("{} rows for {} units: {:?}", s.rows.len(), units.len(), s.rows)); }
            let cmp = |a: &Unit, b: &Unit| match key { 0 => a.rss.cmp(&b.rss), 1 => a.time.partial_cmp(&b.time).unwrap(), _ => Path::new(&a.file).cmp(Path::new(&b.file)) };
            let mut rows = units.to_vec();
            rows.sort_by(|a, b| if order == '^' { cmp(a, b) } else { cmp(b, a) });
            let mut k = 0;
            while k < rows.len() {
                let n = rows[k..].iter().take_while(|r| cmp(&rows[k], r).is_eq()).count();
                let mut left = rows[k..k + n].to_vec();
                for got in &s.rows[k..k + n] {
                    let Some(p) = left.iter().position(|u| cells_ok(got, u)) else { return Err(format!("row {got:?} is none of those expected in its place ({left:?})")) };
                    left.remove(p);
                }
                k += n;
            }
            if !units.is_empty() && s.selected.len() != 1 { return Err(format!("rows {:?} are highlighted", s.selected)); }
            if step == 0 && !units.is_empty() && s.selected != [0] { return Err(format!("row {:?} is selected at first", s.selected)); }
            prev = Some(s);
            Ok(())
        };
        one().map_err(|e| format!("{what}: {e}"))?;
    }
    Ok(())
}
const DIRS: &[&str] = &["src", "a", "ab", "tests", "CMakeFiles", "some_rather_long_directory_name", "..", "x86", "Été"];
pub fn c26(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    let dir = Scratch::new("c26");
    terminal();
    for _ in 0..ctx.n(6_000, 60_000) {
        if ctx.done() { break; }
        let timed = r.chance(3, 4);
        let few = r.chance(1, 3);
        let units: Vec<Unit> = (0..if r.chance(1, 12) { 0 } else { r.below(24) }).map(|k| {
            let mut file = String::new();
            for _ in 0..r.below(6) { file.push_str(r.pick(DIRS)); file.push('/') }
            file.push_str(&if r.chance(1, 4) { format!("{k}.cpp") } else { format!("{}.cc", r.pick(&["main", "a", "b_test_of_something_else", "z"])) });
            let rss = if few { *r.pick(&[0, 1_000_000_000, 1_000_000_001]) } else { match r.below(4) { 0 => r.below(5_000_000) as u64, 1 => 1_000_000_000 + r.below(9) as u64, _ => r.next() % 40_000_000_000 } };
            let time = timed.then(|| if few { *r.pick(&[0.0, 1.5, 1.25]) } else { match r.below(3) { 0 => r.below(100) as f32 / 64.0, 1 => 10.0 + r.below(5) as f32 / 1024.0, _ => r.below(20_000) as f32 / 7.0 } });
            Unit { file, rss, time }
        }).collect();
        let w = match r.below(6) { 0 => 1 + r.below(49), 1 => 50 + r.below(20), _ => 70 + r.below(60) } as u16;
        let acts: Vec<Act> = (0..r.below(10)).map(|_| if r.chance(1, 2) { Act::Move([1, -1, 2, 5, 40, -40][r.below(6)]) } else { Act::Sort(r.below(3)) }).collect();
        ctx.case(|| format!("the build profile {units:?}, {acts:?} on a terminal of {w} columns"), |c| session(&units, timed, &acts, w, 30, &dir.0, c));
    }
}
