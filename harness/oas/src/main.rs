//! Executable form of the asylum contracts
use asylum::lasso::{Key, LargeSpur, MicroSpur, MiniSpur, Spur};
use asylum::path::{PathInterner, PathKey};
use asylum::sequence::{SequenceInterner, SequenceKey};
use asylum::{Interner, InternerKey};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::ops::Range;
use vkit::{Ctx, Rng};

/// item whose hash collides a lot: an interner must compare contents
#[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd)]
struct Clash(u8);
impl Hash for Clash { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.0 & 1) } }

#[derive(Clone, Debug)]
enum Op { Intern(Vec<u8>), Entry(Vec<Option<u8>>, bool) }

fn seq_history<T: Copy + Eq + Hash + std::fmt::Debug, K: InternerKey<ImplKey = Range<usize>> + std::fmt::Debug + Hash>(ctx: &mut Ctx, ops: &[Op], mk: impl Fn(u8) -> T) -> Result<(), String> {
    let mut it = SequenceInterner::<T, K>::new();
    let mut model: Vec<(Vec<T>, K)> = vec![];
    let mut items = 0;
    for (n, op) in ops.iter().enumerate() {
        let before = items;
        let (content, key) = match op {
            Op::Intern(s) => { let v: Vec<T> = s.iter().map(|&b| mk(b)).collect(); let k = it.intern(&v); (v, Some(k)) }
            Op::Entry(steps, commit) => {
                let mut v: Vec<T> = vec![];
                let mut e = it.entry();
                for s in steps {
                    match s {
                        Some(b) => { e.push(mk(*b)); v.push(mk(*b)); }
                        None => { let g = e.pop(); let w = v.pop(); if g != w { return Err(format!("step {n}: pop returned {g:?}, the last item pushed was {w:?}")); } }
                    }
                    if e.len() != v.len() || e.is_empty() != v.is_empty() { return Err(format!("step {n}: entry reports length {}, {} items are pending", e.len(), v.len())); }
                }
                if *commit { let k = e.intern(); (v, Some(k)) } else { ctx.hit("abandoned entry"); drop(e); (v, None) }
            }
        };
        if let Some(k) = key {
            match model.iter().find(|m| m.0 == content) {
                Some(m) => { ctx.hit("already interned"); if m.1 != k { return Err(format!("step {n}: {content:?} got key {k:?}, was interned as {:?}", m.1)); } }
                None => {
                    if let Some(m) = model.iter().find(|m| m.1 == k) { return Err(format!("step {n}: {content:?} got the key {k:?} of {:?}", m.0)); }
                    items += content.len();
                    model.push((content, k));
                }
            }
        }
        let (mut ml, _) = (0, before);
        for (c, k) in &model {
            ml = ml.max(c.len());
            if it.get(*k) != &c[..] { return Err(format!("after step {n}: key {k:?} of {c:?} reads {:?}", it.get(*k))); }
        }
        if it.len() != model.len() || it.is_empty() != model.is_empty() { return Err(format!("after step {n}: {} sequences reported, {} were interned", it.len(), model.len())); }
        if it.num_items() != items { return Err(format!("after step {n}: {} items reported, {items} were interned", it.num_items())); }
        let want = if model.is_empty() { None } else { Some(ml) };
        if it.max_sequence_len() != want { return Err(format!("after step {n}: maximal length {:?} reported, it is {want:?}", it.max_sequence_len())); }
    }
    let copy = it.clone();
    let done = it.finalize();
    for (c, k) in &model {
        if done.get(*k) != &c[..] { return Err(format!("finalized: key {k:?} of {c:?} reads {:?}", done.get(*k))); }
        if copy.get(*k) != &c[..] { return Err(format!("cloned: key {k:?} of {c:?} reads {:?}", copy.get(*k))); }
    }
    Ok(())
}

fn item_history<T: Copy + Eq + Hash + std::fmt::Debug>(ctx: &mut Ctx, ops: &[u8], mk: impl Fn(u8) -> T) -> Result<(), String> {
    let mut it = Interner::<T, MiniSpur>::new();
    let mut model: Vec<(T, MiniSpur)> = vec![];
    for (n, b) in ops.iter().enumerate() {
        let v = mk(*b);
        let k = it.intern(v);
        match model.iter().find(|m| m.0 == v) {
            Some(m) => { ctx.hit("already interned"); if m.1 != k { return Err(format!("step {n}: {v:?} got key {k:?}, was interned as {:?}", m.1)); } }
            None => {
                if let Some(m) = model.iter().find(|m| m.1 == k) { return Err(format!("step {n}: {v:?} got the key {k:?} of {:?}", m.0)); }
                model.push((v, k));
            }
        }
        for (c, k) in &model { if it.get(*k) != c { return Err(format!("after step {n}: key {k:?} of {c:?} reads {:?}", it.get(*k))); } }
        if it.len() != model.len() || it.is_empty() != model.is_empty() { return Err(format!("after step {n}: {} items reported, {} were interned", it.len(), model.len())); }
    }
    let done = it.finalize();
    for (c, k) in &model { if done.get(*k) != c { return Err(format!("finalized: key {k:?} of {c:?} reads {:?}", done.get(*k))); } }
    Ok(())
}

fn gen_ops(r: &mut Rng) -> Vec<Op> {
    let alpha = *r.pick(&[2usize, 3, 6, 40]);
    let max = *r.pick(&[3usize, 4, 10, 30]);
    let n = *r.pick(&[4usize, 12, 60]);
    let mut pool: Vec<Vec<u8>> = vec![];
    (0..n).map(|_| {
        let mut s: Vec<u8> = if !pool.is_empty() && r.chance(1, 3) { r.pick(&pool).clone() } else { (0..r.below(max + 1)).map(|_| r.below(alpha) as u8).collect() };
        if !s.is_empty() && r.chance(1, 6) { let k = r.below(s.len()); s.truncate(k); }
        if r.chance(1, 8) { s.push(r.below(alpha) as u8); }
        pool.push(s.clone());
        if r.chance(1, 2) { Op::Intern(s) } else {
            // reach the same content through a detour
            let mut steps: Vec<Option<u8>> = vec![];
            if r.chance(1, 8) { steps.push(None); }
            for b in s {
                while r.chance(1, 8) { steps.push(Some(r.below(alpha) as u8)); steps.push(None); }
                steps.push(Some(b));
            }
            if r.chance(1, 10) { for _ in 0..r.below(max + 2) { steps.push(None); } }
            Op::Entry(steps, r.chance(3, 4))
        }
    }).collect()
}

fn c04(ctx: &mut Ctx) {
    // every history of two operations over sequences of at most 2 items of 2 values
    let mut seqs: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..2 { seqs.push(vec![a]); for b in 0..2 { seqs.push(vec![a, b]); } }
    let mut all: Vec<Op> = vec![];
    for s in &seqs {
        all.push(Op::Intern(s.clone()));
        for c in [true, false] { all.push(Op::Entry(s.iter().map(|&b| Some(b)).collect(), c)); }
        let mut d: Vec<Option<u8>> = s.iter().map(|&b| Some(b)).collect(); d.push(None); all.push(Op::Entry(d.clone(), true)); d.insert(0, None); all.push(Op::Entry(d, true));
    }
    for a in &all { for b in &all { for c in &all {
        if ctx.done() { return; }
        let h = [a.clone(), b.clone(), c.clone()];
        ctx.case(|| format!("{h:?}"), |ctx| seq_history::<u8, SequenceKey<Spur, 8>>(ctx, &h, |b| b));
    } } }
    ctx.note("exhaustive histories of three operations over sequences of up to two items");
    let mut r = Rng::new(ctx.seed);
    for i in 0..ctx.n(1500, 60000) {
        if ctx.done() { return; }
        let ops = gen_ops(&mut r);
        match i % 4 {
            0 => ctx.case(|| format!("colliding hashes: {ops:?}"), |ctx| seq_history::<Clash, SequenceKey<Spur, 8>>(ctx, &ops, Clash)),
            1 => ctx.case(|| format!("{ops:?}"), |ctx| seq_history::<u8, SequenceKey<LargeSpur, 16>>(ctx, &ops, |b| b)),
            _ => ctx.case(|| format!("{ops:?}"), |ctx| seq_history::<u8, SequenceKey<Spur, 8>>(ctx, &ops, |b| b)),
        }
        let n = *r.pick(&[3usize, 20, 200]);
        let alpha = *r.pick(&[2usize, 9, 250]);
        let items: Vec<u8> = (0..n).map(|_| r.below(alpha) as u8).collect();
        if i % 2 == 0 { ctx.case(|| format!("items {items:?}"), |ctx| item_history(ctx, &items, |b| b)); }
        else { ctx.case(|| format!("items with colliding hashes {items:?}"), |ctx| item_history(ctx, &items, Clash)); }
    }
}

fn key_case<Inner: Key + std::fmt::Debug, const L: u32>(ctx: &mut Ctx, ranges: &[Range<usize>]) -> Result<(), String> {
    let mut seen: HashMap<usize, Range<usize>> = HashMap::new();
    for r in ranges {
        let len = r.end - r.start;
        let fits = (L == 0 || r.start >> (64 - L) == 0) && len < (1usize << L) && Inner::try_from_usize(r.start << L | len).is_some();
        match SequenceKey::<Inner, L>::try_from_impl_key(r.clone()) {
            None => { ctx.hit("refused"); if fits { return Err(format!("{r:?} fits the bit budget but was refused")); } }
            Some(k) => {
                ctx.hit("packed");
                if !fits { return Err(format!("{r:?} does not fit the bit budget but was packed")); }
                let g = k.into_impl_key();
                if g != *r { return Err(format!("{r:?} came back as {g:?}")); }
                let _ = seen.insert(r.start << L | len, r.clone());
            }
        }
    }
    Ok(())
}
fn keys<Inner: Key + std::fmt::Debug, const L: u32>(ctx: &mut Ctx, name: &str, exhaustive: usize) {
    if exhaustive > 0 {
        for s in 0..exhaustive {
            if ctx.done() { return; }
            let v: Vec<_> = (0..exhaustive).map(|l| s..s + l).collect();
            ctx.case(|| format!("{name}, {L} length bits, start {s}, lengths below {exhaustive}"), |ctx| key_case::<Inner, L>(ctx, &v));
        }
    }
    let mut r = Rng::new(ctx.seed ^ L as u64);
    for _ in 0..ctx.n(60, 4000) {
        if ctx.done() { return; }
        let mut v = vec![];
        for _ in 0..60 {
            let near = |r: &mut Rng, b: usize| -> usize { let base = if b >= 64 { usize::MAX } else { (1usize << b).wrapping_sub(1) }; match r.below(6) { 0 => base, 1 => base.saturating_sub(1), 2 => base.saturating_add(1), 3 => base.saturating_add(2), 4 => base / 2, _ => (r.next() as usize) >> (63 - b.min(63)) } };
            let bits = std::mem::size_of::<Inner>() * 8;
            let pick = *r.pick(&[bits.saturating_sub(L as usize), 64 - L as usize, r.clone().below(64)]);
            let s = near(&mut r, pick);
            let pl = *r.pick(&[L as usize, r.clone().below(64)]);
            let l = near(&mut r, pl);
            if let Some(e) = s.checked_add(l) { v.push(s..e); }
        }
        ctx.case(|| format!("{name}, {L} length bits, {v:?}"), |ctx| key_case::<Inner, L>(ctx, &v));
    }
}
fn c05(ctx: &mut Ctx) {
    keys::<MicroSpur, 0>(ctx, "8-bit key", 300); keys::<MicroSpur, 1>(ctx, "8-bit key", 300); keys::<MicroSpur, 3>(ctx, "8-bit key", 300);
    keys::<MicroSpur, 4>(ctx, "8-bit key", 300); keys::<MicroSpur, 7>(ctx, "8-bit key", 300); keys::<MicroSpur, 8>(ctx, "8-bit key", 300);
    keys::<MiniSpur, 6>(ctx, "16-bit key", 0); keys::<Spur, 8>(ctx, "32-bit key", 0); keys::<Spur, 1>(ctx, "32-bit key", 0);
    keys::<LargeSpur, 1>(ctx, "64-bit key", 0); keys::<LargeSpur, 16>(ctx, "64-bit key", 0); keys::<LargeSpur, 63>(ctx, "64-bit key", 0);
    keys::<LargeSpur, 0>(ctx, "64-bit key", 0);
}

/// documented normalisation, written on text
fn normal(p: &str) -> Option<Vec<String>> {
    if !p.starts_with('/') { return None; }
    let mut out = vec!["/".to_string()];
    for c in p.split('/') {
        match c { "" | "." => {} ".." => { if out.len() > 1 { out.pop(); } } c => out.push(c.into()) }
    }
    Some(out)
}
fn paths(ctx: &mut Ctx, ps: &[String]) -> Result<(), String> {
    let mut it = PathInterner::<MiniSpur, PathKey<Spur, 8>>::new();
    let mut model: Vec<(Vec<String>, PathKey<Spur, 8>)> = vec![];
    for p in ps {
        match (it.intern(p), normal(p)) {
            (Err(_), None) => ctx.hit("relative"),
            (Ok(_), None) => return Err(format!("relative path {p:?} was accepted")),
            (Err(e), Some(_)) => return Err(format!("absolute path {p:?} was refused: {e}")),
            (Ok(k), Some(n)) => {
                ctx.hit("absolute");
                match model.iter().find(|m| m.0 == n) {
                    Some(m) => if m.1 != k { return Err(format!("{p:?} denotes the same file as an earlier path but got another key")) },
                    None => { if let Some(m) = model.iter().find(|m| m.1 == k) { return Err(format!("{p:?} got the key of {:?}", m.0.join("/"))); } model.push((n, k)); }
                }
            }
        }
        for (n, k) in &model {
            let g: Vec<String> = it.get(*k).components().map(|c| c.value().to_string()).collect();
            if g != *n { return Err(format!("after {p:?}: components {g:?}, expected {n:?}")); }
        }
        if it.len() != model.len() { return Err(format!("{} paths reported, {} interned", it.len(), model.len())); }
        if it.num_components() != model.iter().map(|m| m.0.len()).sum::<usize>() { return Err(format!("after {p:?}: {} components reported", it.num_components())); }
    }
    let done = it.finalize();
    for (n, k) in &model {
        let path = done.get(*k);
        let g: Vec<String> = path.components().map(|c| c.value().to_string()).collect();
        if g != *n { return Err(format!("finalized: components {g:?}, expected {n:?}")); }
        for (n2, k2) in &model { if (path == done.get(*k2)) != (n == n2) { return Err(format!("{n:?} and {n2:?} compare equal: {}", n != n2)); } }
        let ks: Vec<_> = path.components().map(|c| (c.key(), c.value())).collect();
        for (i, a) in ks.iter().enumerate() { for b in &ks[..i] { if (a.0 == b.0) != (a.1 == b.1) { return Err(format!("component keys of {a:?} and {b:?} disagree with their text")); } } }
        let want: std::path::PathBuf = n.iter().collect();
        if *path.to_boxed_path() != *want { return Err(format!("{n:?} is converted to {:?}", path.to_boxed_path())); }
        let text = want.display().to_string();
        if path.to_string() != text { return Err(format!("{n:?} is displayed as {:?}", path.to_string())); }
    }
    Ok(())
}
fn c06(ctx: &mut Ctx) {
    let parts = ["", ".", "..", "a", "b.c"];
    for n in 0..=5usize {
        for code in 0..parts.len().pow(n as u32) {
            if ctx.done() { return; }
            let mut c = code;
            let segs: Vec<&str> = (0..n).map(|_| { let s = parts[c % parts.len()]; c /= parts.len(); s }).collect();
            let p = segs.join("/");
            let v = vec![format!("/{p}"), "/a".into(), p.clone(), "/a/../..".into(), format!("/a/{p}"), format!("/{p}/../x")];
            ctx.case(|| format!("{v:?}"), |ctx| paths(ctx, &v));
        }
    }
    ctx.note("exhaustive paths of up to five segments out of empty, ., .., a, b.c");
    let mut r = Rng::new(ctx.seed);
    let parts = ["", ".", "..", "...", "a", "usr", "include", "é", "c++", " ", "..a", "a..", "\\", "C:"];
    for _ in 0..ctx.n(400, 20000) {
        if ctx.done() { return; }
        let v: Vec<String> = (0..12).map(|_| { let n = r.below(14); let s: Vec<&str> = (0..n).map(|_| *r.pick(&parts)).collect(); format!("{}{}", if r.chance(9, 10) { "/" } else { "" }, s.join("/")) }).collect();
        ctx.case(|| format!("{v:?}"), |ctx| paths(ctx, &v));
    }
}

fn main() { vkit::run(&[("C04", c04), ("C05", c05), ("C06", c06)]); }
