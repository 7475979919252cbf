// Executable contract of the TUI's processing thread (C24)
use super::show::{described, event, forest, json, Scratch};
use super::vkit::{Ctx, Rng};
use crate::ui::tui::verif::{ActivityInfo, ProcessingThread};
use clang_time_trace::{ActivityArgument, ActivityTrace, ActivityTraceId, ClangTrace, ParsedActivityArgument};
use std::sync::mpsc;

#[derive(Clone, Debug)]
enum File { Trace(usize), Garbage, Missing, Crossing }
#[derive(Clone, Debug)]
enum Op { Load(Vec<File>), Trace(u16), Roots, All, Direct(usize), Below(usize), Descs(Vec<usize>, u16), Desc(usize, u16) }

/// description of an activity on a trace that was not asked for anything else, on one line or in full
pub fn text_of(t: &mut ClangTrace, id: ActivityTraceId, cols: Option<u16>) -> String {
    use unicode_width::UnicodeWidthStr;
    let raw = t.activity_trace(id).activity().raw_argument().clone();
    let detail = raw.detail();
    let parsed = raw.parse(t).unwrap_or_else(|_| detail.map_or(ParsedActivityArgument::Nothing, ParsedActivityArgument::String));
    let arg = parsed.resolve(t);
    let at = t.activity_trace(id);
    let name = at.activity().name();
    let need = name.width() + if matches!(arg, ActivityArgument::Nothing) { 0 } else { 3 };
    if cols.map_or(false, |c| need > c as usize) { "…".into() } else { described(name, &arg, cols) }
}
fn listed(what: &str, got: &[ActivityInfo], want: Vec<ActivityTrace>) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{} {what} activities instead of {}", got.len(), want.len())); }
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        let kids = w.direct_children().count() > 0;
        if g.id != w.id() || g.duration != w.duration() || g.self_duration != w.self_duration() || g.has_children != kids {
            return Err(format!("{what} activity {k}: {:?} lasting {} ({} itself), has children: {}; expected {:?} lasting {} ({} itself), has children: {kids}", g.id, g.duration, g.self_duration, g.has_children, w.id(), w.duration(), w.self_duration()));
        }
    }
    Ok(())
}
fn write(f: &File, traces: &[String], path: &std::path::Path) {
    let text = match f {
        File::Trace(k) => json(&traces[*k]),
        File::Garbage => "{\"traceEvents\":[".into(),
        File::Crossing => json(&(event("Frontend", 5.0, 10.0, None) + &event("Backend", 10.0, 10.0, None))),
        File::Missing => { let _ = std::fs::remove_file(path); return }
    };
    std::fs::write(path, text).unwrap();
}
fn history(ops: &[Op], traces: &[String], dir: &std::path::Path, c: &mut Ctx) -> Result<(), String> {
    let mut th = ProcessingThread::start();
    let mut reference: Option<ClangTrace> = None;
    for (step, op) in ops.iter().enumerate() {
        let mut one = || -> Result<(), String> {
            if let Op::Load(files) = op {
                let (tx, rx) = mpsc::channel();
                for (k, f) in files.iter().enumerate() {
                    let path = dir.join(format!("{k}.json"));
                    write(f, traces, &path);
                    let tx = tx.clone();
                    th.start_load_trace(&path, move |r| tx.send((k, r.map_err(|e| e.to_string()))).unwrap());
                }
                drop(tx);
                for (k, f) in files.iter().enumerate() {
                    let r = rx.recv_timeout(std::time::Duration::from_secs(15)).map_err(|e| format!("load {k} of {files:?} is not answered: {e}"))?;
                    let want = ClangTrace::from_file(dir.join(format!("{k}.json"))).map_err(|e| e.to_string()).map(|t| { reference = Some(t) });
                    if want.is_err() { reference = None; c.tally("rejected file") } else { c.tally("loaded file") }
                    if r != (k, want.clone()) { return Err(format!("load {k} ({f:?}) is answered {r:?}, expected {want:?}")); }
                }
                // every callback has run or is gone once the next request is answered
                if reference.is_some() { th.get_root_activities(); if let Ok(r) = rx.try_recv() { return Err(format!("{files:?} answered once more: {r:?}")); } }
                return Ok(());
            }
            let t = reference.as_mut().expect("histories ask about loaded traces only");
            let ids: Vec<_> = t.all_activities().map(|a| a.id()).collect();
            let pick = |k: usize| ids[k % ids.len()];
            if ids.is_empty() && matches!(op, Op::Direct(_) | Op::Below(_) | Op::Desc(..)) { return Ok(()); }
            match op {
                Op::Load(_) => unreachable!(),
                Op::Trace(w) => {
                    let (g, e) = (th.describe_trace(*w), crate::ui::verif::metadata(t, *w));
                    if g != e { return Err(format!("trace described as {g:?}, expected {e:?}")); }
                }
                Op::Roots => listed("root", &th.get_root_activities(), t.root_activities().collect())?,
                Op::All => listed("trace", &th.get_all_activities(), t.all_activities().collect())?,
                Op::Direct(k) => listed("child", &th.get_direct_children(pick(*k)), t.activity_trace(pick(*k)).direct_children().collect())?,
                Op::Below(k) => listed("descendant", &th.get_all_children(pick(*k)), t.activity_trace(pick(*k)).all_children().collect())?,
                Op::Descs(ks, w) => {
                    let asked: Vec<_> = if ids.is_empty() { vec![] } else { ks.iter().map(|k| pick(*k)).collect() };
                    let got = th.describe_activities(asked.clone().into(), *w);
                    if got.len() != asked.len() { return Err(format!("{} descriptions for {} activities", got.len(), asked.len())); }
                    for (g, id) in got.iter().zip(asked) {
                        let e = text_of(t, id, Some(*w));
                        c.hit("described on a line");
                        if **g != *e { return Err(format!("{id:?} described as {g:?} in {w} columns, expected {e:?}")); }
                    }
                }
                Op::Desc(k, w) => {
                    let (g, wrap) = th.describe_activity(pick(*k), *w);
                    let e = text_of(t, pick(*k), None);
                    c.hit("described in full");
                    if g != e || !wrap { return Err(format!("{:?} fully described as {g:?} (wrapped: {wrap}), expected {e:?} (wrapped)", pick(*k))); }
                }
            }
            Ok(())
        };
        one().map_err(|e| format!("request {step} ({op:?}): {e}"))?;
    }
    Ok(())
}
pub fn c24(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    let dir = Scratch::new("c24");
    for _ in 0..ctx.n(15_000, 200_000) {
        if ctx.done() { break; }
        let traces: Vec<String> = (0..3).map(|_| {
            let mut s = String::new();
            if !r.chance(1, 12) { let (n, d) = (1 + r.below(20), 1 + r.below(3)); forest(&mut r, 2, 1001, d, n, &mut s); }
            s
        }).collect();
        let widths: Vec<u16> = (0..1 + r.below(3)).map(|_| match r.below(4) { 0 => r.below(12), 1 => 10 + r.below(20), 2 => 20 + r.below(60), _ => r.below(200) } as u16).collect();
        let (mut ops, mut loaded) = (vec![], false);
        for _ in 0..3 + r.below(25) {
            let width = widths[r.below(widths.len())];
            if !loaded || r.chance(1, 6) {
                let n = if r.chance(3, 4) { 1 } else { 1 + r.below(3) };
                let files: Vec<File> = (0..n).map(|_| match r.below(10) { 0 => File::Garbage, 1 => File::Missing, 2 => File::Crossing, k => File::Trace(k % 3) }).collect();
                loaded = matches!(files.last(), Some(File::Trace(_)));
                ops.push(Op::Load(files));
                continue;
            }
            ops.push(match r.below(10) {
                0 => Op::Trace(width.max(1)), 1 => Op::Roots, 2 => Op::All, 3 => Op::Direct(r.below(50)), 4 => Op::Below(r.below(50)),
                5 | 6 => Op::Desc(r.below(6), width),
                _ => Op::Descs((0..r.below(8)).map(|_| r.below(6)).collect(), width),
            });
        }
        ctx.case(|| format!("requests {ops:?} where the traces have the events {traces:?}"), |c| history(&ops, &traces, &dir.0, c));
    }
}
