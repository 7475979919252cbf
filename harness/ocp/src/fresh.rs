// C17: freshness of a build product, on real files with chosen modification times
use cmakeperf::commands::{CompilationDatabase, DatabaseEntry, ProductFreshness};
use std::fs::{self, File};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};
use vkit::{Ctx, Rng};

pub fn c17(ctx: &mut Ctx) {
    let base = crate::scratch().join("c17");
    let _ = fs::remove_dir_all(&base);
    fs::create_dir_all(&base).unwrap();
    std::env::set_current_dir(&base).unwrap();
    let mut r = Rng::new(ctx.seed);
    let start = SystemTime::now();
    for _ in 0..ctx.n(6_000, 60_000) {
        if ctx.done() { break }
        let mut r = Rng::new(r.next());
        // times: a few moments around each other, some a nanosecond apart, some in the future
        let far = r.chance(1, 8);
        let t = |r: &mut Rng| -> Option<SystemTime> {
            if r.chance(1, 14) { return None; }
            let off = r.below(4) as u64;
            let b = if far { start + Duration::from_secs(4000) } else { start - Duration::from_secs(1000) };
            Some(b + if r.chance(1, 2) { Duration::from_nanos(off) } else { Duration::from_secs(off) })
        };
        let product = t(&mut r).map(|x| if r.chance(1, 2) { x + Duration::from_nanos(3) } else { x });
        let db = t(&mut r);
        let n = r.below(4);
        let inputs: Vec<Option<SystemTime>> = (0..n).map(|_| t(&mut r)).collect();
        let blocked = r.chance(1, 20);   // product below a file: cannot even be looked up
        let dirs = r.chance(1, 10);
        ctx.case(|| format!("product {product:?}{}, database {db:?}, inputs {inputs:?}", if blocked { " below a file" } else { "" }), |ctx| {
            let put = |name: &str, t: Option<SystemTime>| {
                let _ = fs::remove_file(name); let _ = fs::remove_dir(name);
                if let Some(t) = t { if dirs && name.starts_with("in") { fs::create_dir(name).unwrap(); } else { fs::write(name, "x").unwrap(); } File::open(name).unwrap().set_modified(t).unwrap(); }
            };
            put("product", product);
            put("compile_commands.json", db);
            for (i, t) in inputs.iter().enumerate() { put(&format!("in{i}"), *t); }
            let entry = |i: usize| DatabaseEntry::new(PathBuf::from("/nowhere"), "cc", base.join(format!("in{i}")), None);
            let base_db = CompilationDatabase::from_entries((0..n).map(entry));
            fs::write("plain", "").unwrap();
            let target = if blocked { Path::new("plain/product") } else { Path::new("product") };
            // (error possible, outdated possible, up to date)
            let judge = |ins: &[Option<SystemTime>]| -> (bool, bool, bool) {
                let Some(p) = product else { return (false, false, false) };
                let Some(d) = db else { return (true, false, false) };
                if p < d { return (false, true, false); }
                let missing = ins.iter().any(|t| t.is_none());
                let newer = ins.iter().flatten().any(|t| *t > p);
                (missing, newer, !missing && !newer)
            };
            let mut check = |what: String, got: std::io::Result<ProductFreshness>, ins: &[Option<SystemTime>], before: SystemTime| -> Result<(), String> {
                let after = SystemTime::now();
                if blocked { return if got.is_err() { ctx.hit("unreadable"); Ok(()) } else { Err(format!("{what} is {got:?}")) }; }
                let (err, old, ok) = judge(ins);
                let fine = match &got {
                    Ok(ProductFreshness::Nonexistent) => { ctx.tally("missing"); product.is_none() }
                    Ok(ProductFreshness::Outdated) => { ctx.hit("outdated"); product.is_some() && old }
                    Ok(ProductFreshness::MaybeOutdated(age)) => {
                        ctx.hit("current");
                        product.is_some() && ok && match (age, product) {
                            (Some(a), Some(p)) => p + *a <= after && (p > before || p + *a >= before),
                            (None, Some(p)) => p > before,
                            _ => false,
                        }
                    }
                    Err(_) => { ctx.hit("unreadable"); product.is_some() && err }
                };
                if let Ok(f) = &got { if f.exists() != product.is_some() { return Err(format!("{what}: exists() is {}", f.exists())); } }
                if fine { Ok(()) } else { Err(format!("{what} is {got:?}")) }
            };
            let b = SystemTime::now();
            check("the profile".into(), base_db.profile_freshness(target), &inputs, b)?;
            for i in 0..n {
                let b = SystemTime::now();
                check(format!("the product of input {i}"), base_db.entry(&base.join(format!("in{i}"))).unwrap().derived_freshness(target), &inputs[i..=i], b)?;
            }
            Ok(())
        });
    }
}
