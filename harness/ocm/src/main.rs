// C19, C20: stop flags and out-of-memory killer of cmakeperf
use cmakeperf::measure::verif::{Flags, Killer};
use vkit::{Ctx, Rng};

fn main() { vkit::run(&[("C19", c19), ("C20", c20)]); }

// the flags, by a set of indices
fn agree(f: &Flags, on: &[bool]) -> Result<(), String> {
    let want: Vec<usize> = (0..on.len()).filter(|i| on[*i]).collect();
    let got = f.active();
    if got != want { return Err(format!("active workers {got:?}, expected {want:?}")); }
    if f.num_active() != want.len() { return Err(format!("{} active workers counted, expected {}", f.num_active(), want.len())); }
    let seen = f.seen();
    if seen.len() != on.len() { return Err(format!("{} clients for {} workers", seen.len(), on.len())); }
    for i in 0..on.len() { if seen[i] == on[i] { return Err(format!("worker {i} is told {} although it is {}", if seen[i] { "to stop" } else { "to go on" }, if on[i] { "active" } else { "stopped" })); } }
    Ok(())
}
fn c19(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    for i in 0..ctx.n(3000, 60_000) as usize {
        if ctx.done() { break }
        let mut r = Rng::new(r.next());
        let len = if i <= 200 { i + 1 } else { match r.below(4) { 0 => *r.pick(&[1, 2, 63, 64, 65, 127, 128, 129, 192, 256, 257]), 1 => 64 * r.range(1, 6), 2 => r.range(1, 70), _ => r.range(1, 400) } };
        // in which order they are stopped, and how many of them one by one
        let mut order: Vec<usize> = (0..len).collect();
        let shape = r.below(4);
        match shape { 0 => {}, 1 => order.reverse(), _ => for k in (1..len).rev() { order.swap(k, r.below(k + 1)) } }
        let n = if r.chance(1, 3) { r.below(len + 1) } else { len };
        let all = r.chance(1, 2);
        ctx.case(|| format!("{len} workers; stop one by one {:?}{}{}", &order[..n.min(80)], if n > 80 { "..." } else { "" }, if all { ", then all" } else { "" }), |ctx| {
            let f = Flags::new(len);
            let mut on = vec![true; len];
            agree(&f, &on)?;
            for &k in &order[..n] {
                f.stop(k); on[k] = false;
                agree(&f, &on)?;
                let left: Vec<usize> = (0..len).filter(|i| on[*i]).collect();
                if left.len() == 1 && left[0] % 64 == 63 { ctx.hit("only the last worker of a word is left") }
                if r.chance(1, 16) {
                    let q = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.stop(k)));
                    if q.is_ok() { return Err(format!("worker {k} could be stopped twice")); }
                    ctx.hit("stopped twice"); agree(&f, &on)?;
                }
            }
            if all { f.stop_all(); on = vec![false; len]; agree(&f, &on)?; ctx.hit("all stopped at once"); }
            ctx.hit(if len > 64 { "several words" } else { "one word" });
            Ok(())
        });
    }
}

// the killer, by its rules
struct Model { active: Vec<usize>, margin: u64, last: u64 }
fn step(m: &mut Model, elapsed: &[usize], bkg: u64, available: u64) -> bool {
    let used = m.last.saturating_sub(available);
    m.last = available;
    if used > m.margin { let t = m.active.len() as u64 + bkg; m.margin = (used / t + 1) * t; }
    while available < m.margin {
        let t = m.active.len() as u64 + bkg;
        let k = (0..m.active.len()).min_by_key(|k| (elapsed[m.active[*k]], *k)).unwrap();
        m.active.remove(k);
        m.margin = m.margin / t * (t - 1);
        if m.active.is_empty() { return true; }
    }
    false
}
fn meminfo() -> u64 {
    let s = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    s.lines().find_map(|l| l.strip_prefix("MemAvailable:")).and_then(|l| l.trim().split(' ').next().unwrap().parse::<u64>().ok()).map_or(0, |k| k * 1024)
}
fn c20(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    for i in 0..ctx.n(4000, 80_000) as usize {
        if ctx.done() { break }
        let mut r = Rng::new(r.next());
        let real = i % 500 == 3;
        let n = match r.below(4) { 0 => r.range(1, 3), 1 => *r.pick(&[63, 64, 65, 128]), _ => r.range(1, 80) };
        let tie = r.chance(1, 2);
        let elapsed: Vec<usize> = (0..n).map(|_| if tie { r.below(4) } else { r.below(10_000) }).collect();
        let bkg = *r.pick(&[0usize, 1, 1, 4, 16]);
        let unit = *r.pick(&[1u64, 10, 1000, 100_000_000]);
        let margin = unit * (n + bkg) as u64 + if r.chance(1, 3) { r.below(1000) as u64 } else { 0 };
        let start = if r.chance(1, 3) { margin } else { margin.saturating_mul(1 + r.below(4) as u64) } + r.below(100) as u64;
        let what = r.below(5);
        ctx.case(|| format!("{n} workers at {elapsed:?}, {bkg} background threads, margin {margin}, available {start}, variant {what}{}", if real { ", looking at the system" } else { "" }), |ctx| {
            if real { return look(ctx, n, what); }
            let mut elapsed = elapsed.clone();
            let mut k = Killer::new(&elapsed, bkg, margin, start);
            let mut m = Model { active: (0..n).collect(), margin, last: start };
            for t in 0..12 {
                let available = match r.below(8) {
                    0 => m.margin, 1 => m.margin.saturating_sub(1), 2 => m.last.saturating_sub(m.margin), 3 => m.last.saturating_sub(m.margin + 1),
                    4 => r.next() % (m.margin + 2), 5 => m.last.saturating_add(r.below(1000) as u64), 6 if r.chance(1, 8) => 0,
                    _ => m.last.saturating_sub(r.next() % (m.margin / 2 + 2)),
                };
                for e in elapsed.iter_mut() { if r.chance(1, 20) { *e = 0 } else if r.chance(1, 2) { *e += 1 } }
                for (i, e) in elapsed.iter().enumerate() { k.work(i, *e); }
                let before = m.active.len();
                let end = step(&mut m, &elapsed, bkg as u64, available);
                let got = k.update_with(available);
                match before - m.active.len() { 0 => ctx.tally("no one killed"), 1 => ctx.hit("one killed"), _ => ctx.hit("several killed") }
                if k.active() != m.active { return Err(format!("update {t} with {available} available: active workers {:?}, expected {:?} of those at {elapsed:?}", k.active(), m.active)); }
                if k.margin() != m.margin { return Err(format!("update {t} with {available} available: margin {}, expected {}", k.margin(), m.margin)); }
                if k.last() != Some(available) { return Err(format!("update {t} with {available} available: remembers {:?}", k.last())); }
                if got != end { return Err(format!("update {t} with {available} available says {}", if got { "that everyone has been killed" } else { "that work goes on" })); }
                if end { ctx.hit("everyone killed"); break }
                if !end && available < k.margin() { return Err("work goes on without enough memory".into()); }
            }
            Ok(())
        });
    }
}
fn look(ctx: &mut Ctx, n: usize, what: usize) -> Result<(), String> {
    let mut k = Killer::real(n);
    if k.active() != (0..n).collect::<Vec<_>>() { return Err(format!("{n} workers, active from the start: {:?}", k.active())); }
    if k.margin() != 100_000_000 * (n + k.bkg()) as u64 { return Err(format!("margin {} for {n} workers", k.margin())); }
    let near = |x: Option<u64>| { let a = meminfo() as f64; x.map_or(false, |x| (x as f64 - a).abs() < 0.2 * a + 5e8) };
    if meminfo() > 0 && !near(k.last()) { return Err(format!("{:?} bytes said to be available at the start", k.last())); }
    ctx.hit("looked at the system");
    match what {
        0 => { k.set(u64::MAX / 2, 0); if !k.update() || !k.active().is_empty() { return Err("with too little memory, work goes on".into()); } }
        1 => { k.stop_all(); if !k.active().is_empty() { return Err("stop_all leaves workers".into()); } }
        _ => {
            k.set(1, 1);
            if k.update() || k.active().len() != n { return Err("with enough memory, workers are killed".into()); }
            if meminfo() > 0 && !near(k.last()) { return Err(format!("{:?} bytes said to be available after an update", k.last())); }
        }
    }
    Ok(())
}
