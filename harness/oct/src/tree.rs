//! Executable form of the tree contracts, run on ClangTrace::from_str
use clang_time_trace::{ActivityTrace, ClangTrace};
use std::fmt::Write;
use vkit::{Ctx, Rng};

type Ev = (f64, f64); // start, duration

pub fn trace(evs: &[Ev]) -> Result<ClangTrace, String> {
    let mut s = String::from("{\"traceEvents\":[");
    for (st, d) in evs {
        let _ = write!(s, "{{\"pid\":1,\"tid\":0,\"ph\":\"X\",\"ts\":{st:?},\"dur\":{d:?},\"name\":\"Frontend\"}},");
    }
    s.push_str("{\"cat\":\"\",\"pid\":1,\"tid\":0,\"ts\":0,\"ph\":\"M\",\"name\":\"process_name\",\"args\":{\"name\":\"clang\"}}]}");
    s.parse::<ClangTrace>().map_err(|e| e.to_string())
}

fn end(e: &Ev) -> f64 { e.0 + e.1 }

/// contract of acceptance: ends never go back, no interval straddles the start of a later one
pub fn acceptable(evs: &[Ev]) -> Result<(), String> {
    for i in 1..evs.len() {
        if end(&evs[i]) < end(&evs[i - 1]) { return Err(format!("event {i} ends before event {}", i - 1)); }
        for j in 0..i {
            if evs[j].0 < evs[i].0 && end(&evs[j]) > evs[i].0 { return Err(format!("event {j} straddles the start of event {i}")); }
        }
    }
    Ok(())
}

fn check_accept(evs: &[Ev]) -> Result<(), String> {
    match (trace(evs), acceptable(evs)) {
        (Ok(_), Ok(())) => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(m)) => Err(format!("accepted although {m}")),
        (Err(e), Ok(())) => Err(format!("rejected ({e}) although ordered and nested")),
    }
}

fn same(a: &ActivityTrace, id: usize, evs: &[Ev]) -> Result<(), String> {
    if a.id() != id { return Err(format!("activity {id} reports id {}", a.id())); }
    if a.start() != evs[id].0 || a.duration() != evs[id].1 || a.end() != end(&evs[id]) {
        return Err(format!("activity {id} has start {} duration {} end {}", a.start(), a.duration(), a.end()));
    }
    if a.activity().name() != "Frontend" { return Err(format!("activity {id} is called {}", a.activity().name())); }
    Ok(())
}

fn check_nesting(t: &ClangTrace, evs: &[Ev]) -> Result<(), String> {
    let n = evs.len();
    let all: Vec<_> = t.all_activities().collect();
    if all.len() != n { return Err(format!("{} activities listed out of {n}", all.len())); }
    let mut parent = vec![None; n];
    let mut seen = vec![false; n];
    for a in &all {
        let i = a.id();
        if i >= n || seen[i] { return Err(format!("activity id {i} listed twice or out of range")); }
        seen[i] = true;
        same(a, i, evs)?;
        if t.activity_trace(i) != *a { return Err(format!("activity_trace({i}) is another activity")); }
        parent[i] = a.parent().map(|p| p.id());
        if let Some(p) = a.parent() { same(&p, p.id(), evs)?; }
    }
    for j in 0..n {
        if let Some(p) = parent[j] { if p <= j { return Err(format!("parent of {j} is {p}, which ended earlier")); } }
    }
    let is_desc = |mut j: usize, i: usize| loop { match parent[j] { Some(p) if p == i => return true, Some(p) => j = p, None => return false } };
    // descendants lie within, everything that ended earlier and is no descendant was over before the start
    for i in 0..n {
        let mut d = Vec::new();
        let mut f = i;
        while f > 0 && evs[f - 1].0 >= evs[i].0 { f -= 1; }
        for j in 0..i {
            if is_desc(j, i) != (j >= f) { return Err(format!("{j} is{} among the descendants of {i}, which are {f}..{i}", if j >= f { " not" } else { "" })); }
            if is_desc(j, i) {
                d.push(j);
                if evs[j].0 < evs[i].0 || end(&evs[j]) > end(&evs[i]) { return Err(format!("{j} is under {i} but not contained in it")); }
            } else if end(&evs[j]) > evs[i].0 {
                return Err(format!("{j} ran inside {i} but is not among its descendants"));
            }
        }
        let a = t.activity_trace(i);
        let mut got: Vec<_> = a.all_children().map(|c| c.id()).collect();
        for c in a.all_children() { same(&c, c.id(), evs)?; }
        got.sort();
        if got != d { return Err(format!("all_children of {i} are {got:?}, expected {d:?}")); }
        let mut kids: Vec<_> = a.direct_children().map(|c| c.id()).collect();
        for c in a.direct_children() { same(&c, c.id(), evs)?; }
        kids.sort();
        let want: Vec<_> = (0..n).filter(|&j| parent[j] == Some(i)).collect();
        if kids != want { return Err(format!("direct_children of {i} are {kids:?}, but the nodes that name it as parent are {want:?}")); }
    }
    let mut roots: Vec<_> = t.root_activities().map(|c| c.id()).collect();
    for c in t.root_activities() { same(&c, c.id(), evs)?; }
    roots.sort();
    let want: Vec<_> = (0..n).filter(|&j| parent[j].is_none()).collect();
    if roots != want { return Err(format!("roots are {roots:?}, but nodes without parent are {want:?}")); }
    Ok(())
}

fn check_self(t: &ClangTrace, evs: &[Ev]) -> Result<(), String> {
    for a in t.all_activities() {
        let kids: f64 = a.direct_children().map(|c| c.duration()).sum();
        let want = a.duration() - kids;
        let tol = 1e-9 * (a.duration().abs() + 1.0) * (evs.len() as f64);
        if !((a.self_duration() - want).abs() <= tol) {
            return Err(format!("self time of {} is {}, duration minus direct children is {want}", a.id(), a.self_duration()));
        }
    }
    Ok(())
}

/// random properly nested forest
fn forest(r: &mut Rng, n: usize, out: &mut Vec<Ev>, lo: f64, hi: f64, depth: usize) {
    let mut t = lo;
    let mut left = n;
    while left > 0 {
        let size = if depth > 12 { 1 } else if r.chance(1, 3) { left } else { r.range(1, left) };
        left -= size;
        let room = hi - t;
        let touch = r.chance(1, 4);
        let s = if touch { t } else { t + room * 0.3 * r.unit() };
        let e = if left == 0 && r.chance(1, 4) { hi } else if r.chance(1, 12) { s } else { s + (hi - s) * (0.2 + 0.6 * r.unit()) };
        if size > 1 { forest(r, size - 1, out, s, e, depth + 1); }
        // duration chosen so that start + duration is exactly representable often enough
        let d = e - s;
        out.push((s, d));
        t = s + d;
        if t > hi { t = hi; }
    }
}

fn gen(ctx: &mut Ctx, mut f: impl FnMut(&mut Ctx, &[Ev]) -> Result<(), String>) {
    // exhaustive: up to 3 events over a small grid, zero durations included
    let k = 4usize;
    let max_n = 3;
    for n in 0..=max_n {
        let total = (k * k).pow(n as u32);
        for code in 0..total {
            if ctx.done() { return; }
            let mut c = code;
            let evs: Vec<Ev> = (0..n).map(|_| { let x = c % (k * k); c /= k * k; (10.0 + (x / k) as f64, (x % k) as f64) }).collect();
            ctx.case(|| format!("{evs:?}"), |ctx| f(ctx, &evs));
        }
    }
    ctx.note(format!("exhaustive up to {max_n} events on a {k}x{k} grid of starts and durations"));
    // all nested integer forests by dyck words with optional gaps, up to 7 events
    for n in 4..=ctx.n(6, 9) as usize {
        dyck(ctx, n, &mut f);
    }
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(3000, 200000) {
        if ctx.done() { return; }
        let n = match r.below(4) { 0 => r.range(1, 6), 1 => r.range(5, 20), 2 => r.range(10, 60), _ => r.range(4, 200) };
        let mut evs = Vec::new();
        let big = *r.pick(&[100.0, 1e6, 3e9, 50.0]);
        let int = r.chance(1, 2);
        forest(&mut r, n, &mut evs, 2.0, big, 0);
        if int { for e in &mut evs { let en = end(e).floor(); e.0 = e.0.floor(); e.1 = en - e.0; } }
        match r.below(6) {
            0 => { let i = r.below(evs.len()); let j = r.below(evs.len()); evs.swap(i, j); }
            1 => { let i = r.below(evs.len()); evs[i].1 += r.unit() * 10.0; }
            2 => { let i = r.below(evs.len()); evs[i].0 = (evs[i].0 - r.unit() * 10.0).max(2.0); }
            _ => {}
        }
        // thousandths: few enough digits that JSON number parsing is exact
        for e in &mut evs { e.0 = (e.0 * 1000.0).round() / 1000.0; e.1 = (e.1 * 1000.0).round() / 1000.0; }
        ctx.case(|| format!("{evs:?}"), |ctx| f(ctx, &evs));
    }
}

/// every forest shape with n nodes (as balanced parenthesis words), unit gaps between events
fn dyck(ctx: &mut Ctx, n: usize, f: &mut impl FnMut(&mut Ctx, &[Ev]) -> Result<(), String>) {
    for bits in 0u64..(1 << (2 * n)) {
        if bits.count_ones() as usize != n { continue; }
        if ctx.done() { return; }
        let mut stack = Vec::new();
        let mut evs: Vec<Ev> = Vec::new();
        let mut ok = true;
        for p in 0..2 * n {
            if bits >> p & 1 == 1 { stack.push(p); } else {
                match stack.pop() { Some(s) => evs.push((10.0 + s as f64, (p - s) as f64)), None => { ok = false; break; } }
            }
        }
        if ok { ctx.case(|| format!("{evs:?}"), |ctx| f(ctx, &evs)); }
    }
}

pub fn c01(ctx: &mut Ctx) {
    gen(ctx, |ctx, evs| match trace(evs) { Ok(t) => { ctx.hit("accepted"); check_nesting(&t, evs) } Err(_) => { ctx.tally("rejected"); Ok(()) } });
}
pub fn c02(ctx: &mut Ctx) {
    gen(ctx, |ctx, evs| { ctx.hit(if acceptable(evs).is_ok() { "acceptable" } else { "unacceptable" }); check_accept(evs) });
}
pub fn c03(ctx: &mut Ctx) {
    gen(ctx, |ctx, evs| match trace(evs) { Ok(t) => { ctx.hit("accepted"); check_self(&t, evs) } Err(_) => Ok(()) });
}
