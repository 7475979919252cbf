// C18: unit profiles and build profile files
use cmakeperf::output::{load, ProfileLoadError, UnitProfile};
use std::path::{Path, PathBuf};
use std::time::Duration;
use vkit::{Ctx, Rng};

fn float(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => *r.pick(&[0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 18446744073709551616.0, 18446742974197923840.0, 18446746272732807168.0, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 1e-45, -1e-45, 0.99999994, 1.0, 16777215.0, 8388607.5, 4294967296.0, f32::MAX]),
        1 => r.unit() as f32, 2 => (r.unit() * 3600.0) as f32, 3 => -(r.unit() as f32), 4 => r.below(1 << 24) as f32 + 0.5,
        _ => f32::from_bits(r.next() as u32),
    }
}
fn text(f: f32) -> String { if f.is_nan() { "NaN".into() } else if f == f32::INFINITY { "inf".into() } else if f == f32::NEG_INFINITY { "-inf".into() } else { format!("{f:?}") } }
fn reads(s: Option<f32>, p: &UnitProfile) -> Result<(), String> {
    let got = p.wall_time();
    let ok = match (s, &got) {
        (None, None) => true,
        (Some(s), Some(Err(e))) => !(s >= 0.0 && s <= 18446744073709551616.0) && (e.to_bits() == s.to_bits() || e.is_nan() && s.is_nan()),
        (Some(s), Some(Ok(d))) => s >= 0.0 && s <= 18446744073709551616.0 && d.as_secs() == s as u64 && ((s as f64 - s.trunc() as f64) * 1e9 - d.subsec_nanos() as f64).abs() < 64.0,
        _ => false,
    };
    if ok { Ok(()) } else { Err(format!("time {s:?} is reported as {got:?}")) }
}
fn file(r: &mut Rng) -> String { (0..r.range(1, 6)).map(|_| *r.pick(&["a", "b.cpp", "/", "..", " ", ",", "\"", "é", "\n", "'", "src"])).collect() }
fn quote(s: &str) -> String { format!("\"{}\"", s.replace('"', "\"\"")) }

pub fn c18(ctx: &mut Ctx) {
    let base = crate::scratch().join("c18");
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let csv = base.join("profile.csv");
    let mut r = Rng::new(ctx.seed);
    for i in 0..ctx.n(3000, 30_000) {
        if ctx.done() { break }
        let mut r = Rng::new(r.next());
        let kind = i % 6;
        let n = if kind == 0 { 2000 } else { r.below(6) };
        let rows: Vec<(String, u64, Option<f32>)> = (0..n).map(|_| (file(&mut r), if r.chance(1, 2) { r.next() } else { r.below(1000) as u64 }, r.chance(3, 4).then(|| float(&mut r)))).collect();
        let timed = kind != 1;
        let broken = r.below(6);
        ctx.case(|| format!("kind {kind} {:?}", &rows[..rows.len().min(6)]), |ctx| {
            if kind == 5 {
                ctx.hit("written and read back");
                // what profiling writes
                let mut w = csv::Writer::from_path(&csv).map_err(|e| e.to_string())?;
                let units: Vec<(UnitProfile, Option<Duration>)> = rows.iter().map(|(f, m, t)| {
                    let d = t.map(|_| Duration::new(if r.chance(1, 3) { r.next() } else { r.below(100_000) as u64 }, r.below(1_000_000_000) as u32));
                    (UnitProfile::new(PathBuf::from(f), *m, d), d)
                }).collect();
                for (u, _) in &units { w.serialize(u).map_err(|e| e.to_string())?; }
                w.flush().unwrap(); drop(w);
                let back = load(&csv).map_err(|e| e.to_string())?;
                if back.len() != units.len() { return Err(format!("{} records written, {} read", units.len(), back.len())); }
                for (((f, m, _), (u, d)), b) in rows.iter().zip(&units).zip(&back) {
                    for p in [u, b] {
                        if p.rel_path() != Path::new(f) || p.max_rss_bytes() != *m { return Err(format!("{f:?}, {m} became {p:?}")); }
                        match (d, p.wall_time()) {
                            (None, None) => {}
                            (Some(d), Some(Ok(e))) => { let x = d.as_secs_f64(); if (e.as_secs_f64() - x).abs() > x / 8388608.0 + 1e-7 { return Err(format!("a time of {d:?} became {e:?}")); } }
                            (d, e) => return Err(format!("a time of {d:?} became {e:?}")),
                        }
                    }
                }
                return Ok(());
            }
            let mut s = String::from(if timed { "file,max_rss,time\n" } else { "file,max_rss\n" });
            for (f, m, t) in &rows { s += &format!("{},{m}{}\n", quote(f), if timed { format!(",{}", t.map(text).unwrap_or_default()) } else { String::new() }); }
            let _ = std::fs::remove_file(&csv); let _ = std::fs::remove_dir(&csv);
            if kind == 2 {
                ctx.hit("no such profile");
                match load(&csv) { Err(ProfileLoadError::FileNotFound) => {} o => return Err(format!("without a file: {o:?}")) }
                std::fs::create_dir(&csv).unwrap();
                return match load(&csv) { Err(ProfileLoadError::ParseError(_)) => Ok(()), o => Err(format!("with a directory in its place: {o:?}")) };
            }
            if kind == 3 && n > 0 {
                ctx.hit("malformed");
                let mut lines: Vec<String> = s.strip_suffix('\n').unwrap().to_string().split_inclusive('\n').map(|x| x.to_string()).collect();
                let bad = ["x,-1,0.5\n", "x,1\n", "x,1,2,3\n", "x,y,1.0\n", "x,1,soon\n", "x,18446744073709551616,1.0\n"][broken];
                let s = match r.below(2) { 0 => format!("file,max_rss,time\n{bad}{}", lines.split_off(1).concat()), _ => format!("{s}{bad}") };
                std::fs::write(&csv, &s).unwrap();
                return match load(&csv) { Err(ProfileLoadError::ParseError(_)) => Ok(()), o => Err(format!("{s:?} was read as {o:?}")) };
            }
            std::fs::write(&csv, &s).unwrap();
            let got = load(&csv).map_err(|e| format!("refused: {e}"))?;
            if got.len() != rows.len() { return Err(format!("{} records, {} read", rows.len(), got.len())); }
            for ((f, m, t), p) in rows.iter().zip(&got) {
                if p.rel_path() != Path::new(f) || p.max_rss_bytes() != *m { return Err(format!("{f:?}, {m} was read as {p:?}")); }
                reads(if timed { *t } else { None }, p)?;
                match p.wall_time() { Some(Ok(_)) => ctx.hit("a duration"), Some(Err(_)) => ctx.hit("no duration"), None => ctx.tally("not timed") }
            }
            Ok(())
        });
    }
}
