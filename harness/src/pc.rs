//! C17 levels, C18 memory, C20 dispatch.

use crate::cfg::*;
use crate::core::*;
use crate::ctl::*;
use crate::ctx::Ctx;
use crate::oracle::*;
use crate::rng::*;
use crate::spaces::*;
use crate::{inc, must, viol};
use std::path::Path;

// ---------------------------------------------------------------- C17

/// probabilities of levels 0..nl for scale s, draws beyond the maximum spread over all levels
pub fn law(s: f64, nl: usize) -> Vec<f64> {
    let e = |l: f64| (-l / s).exp();
    let over = e(nl as f64) / nl as f64;
    (0..nl).map(|l| e(l as f64) - e(l as f64 + 1.) + over).collect()
}

/// judges observed counts of levels
pub fn judge_levels(obs: &[usize], s: f64, nl: usize, what: &str) -> R<()> {
    let n: usize = obs.iter().sum();
    for (l, c) in obs.iter().enumerate() {
        must!(l < nl || *c == 0, "{what}: {c} points in layer {l}, the maximum number of layers is {nl}");
    }
    let p = law(s, nl);
    for l in 1..nl {
        let pt: f64 = p[l..].iter().sum();
        let ot: usize = obs[l.min(obs.len())..].iter().sum();
        let exp = pt * n as f64;
        let sd = (n as f64 * pt * (1. - pt)).sqrt();
        must!(
            (ot as f64 - exp).abs() <= 6. * sd + 8.,
            "{what}: {ot} points of {n} reach level {l}, the law of scale {s} gives {exp:.1} (standard deviation {sd:.1})"
        );
        // and each level
        let e1 = p[l] * n as f64;
        let s1 = (e1 * (1. - p[l])).sqrt();
        let o1 = obs.get(l).copied().unwrap_or(0);
        must!(
            (o1 as f64 - e1).abs() <= 6. * s1 + 8.,
            "{what}: {o1} points of {n} at level {l}, the law of scale {s} gives {e1:.1}"
        );
    }
    Ok(())
}

fn cheap(seed: u64, n: usize, m: usize, max_layer: usize) -> Cfg {
    Cfg {
        kind: kind_by_name("f32/L1"),
        style: Style::Uniform,
        n,
        nq: 0,
        dim: 1,
        p: Params {
            m,
            max_elem: n,
            max_layer,
            efc: 2,
            extend: false,
            keep: false,
            scale: None,
        },
        lev: Lev::Natural,
        ids: 0,
        method: 0,
        threads: 8,
        seed,
    }
}

fn eff(f: f64) -> f64 {
    f.max(0.2).min(1.)
}

pub fn c17(kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let m = *rng.pick(&[2, 2, 3, 4, 6, 8, 12, 16, 24, 48, 100, 255]);
    let nl = if rng.chance(0.5) { 16 } else { rng.range(1, 20) };
    let nle = nl.min(16);
    let n = if cx.thorough { 60_000 } else { rng.range(6000, 16_000) };
    let mut c = cheap(seed, n, m, nl);
    let s0 = 1. / (m as f64).ln();
    let same = |a: f64, b: f64| (a - b).abs() <= 1e-12 * b.abs();
    match kind {
        "scale" => {
            // reported scale, small index
            c.n = rng.range(2, 30);
            c.p.max_layer = 16;
            let sp = c.space();
            let mut ix = c.create(&*sp);
            must!(same(ix.scale(), s0), "default level scale is {} for M {m}, expected {s0}", ix.scale());
            let mut s = s0;
            let early = rng.chance(0.7);
            let fs: Vec<f64> = (0..rng.range(0, 4))
                .map(|_| match rng.below(8) {
                    0 => 0.,
                    1 => -3.,
                    2 => 1.,
                    3 => 7.,
                    4 => 0.2,
                    5 => f64::INFINITY,
                    _ => rng.f(),
                })
                .collect();
            let apply = |ix: &mut Box<dyn Index>, s: &mut f64| -> R<()> {
                for f in &fs {
                    ix.modify_scale(*f);
                    *s *= eff(*f);
                    must!(same(ix.scale(), *s), "level scale {} after factors {fs:?} on {s0}, expected {s}", ix.scale());
                }
                Ok(())
            };
            if early {
                apply(&mut ix, &mut s)?;
            }
            let list = c.list();
            insert_all(&mut ix, &list, rng.below(9) as u8, 3, seed);
            if !early {
                apply(&mut ix, &mut s)?;
            }
            must!(same(ix.scale(), s), "level scale {} after insertions, was {s}", ix.scale());
            let mut ix: Box<dyn Index> = ix;
            for r in 0..3 {
                let d = cx.fresh();
                let b = match ix.dump(&d, "s") {
                    Ok(b) => b,
                    Err(e) => inc!("dump {e}"),
                };
                let h = match crate::dumpfile::parse(&d, &b) {
                    Ok(h) => h,
                    Err(e) => inc!("parse {e}"),
                };
                must!(same(h.h.scale, s), "level scale {} in the dump, index uses {s}", h.h.scale);
                ix = match sp.reload(&d, &b, *rng.pick(&[How::Normal, How::WithDist, How::Mmap(1)])) {
                    Ok(i) => i,
                    Err(e) => inc!("reload {e}"),
                };
                must!(same(ix.scale(), s), "level scale {} after {} reloads, was {s}", ix.scale(), r + 1);
                cx.events += 3;
                if rng.chance(0.4) {
                    let f = rng.f() * 1.2;
                    ix.modify_scale(f);
                    s *= eff(f);
                    must!(same(ix.scale(), s), "level scale {} after factor {f} on a reloaded index, expected {s}", ix.scale());
                }
            }
        }
        "conc" => {
            let f = *rng.pick(&[1., 0.5, 0.2, 0.7]);
            c.p.scale = if f < 1. { Some(f) } else { None };
            c.method = *rng.pick(&[2, 3, 5, 7, 8]);
            let sp = c.space();
            inject(seed, Inj::Random(0.0005));
            let (ix, _) = c.build(&*sp);
            cx.schedule();
            let obs: Vec<usize> = (0..18).map(|l| ix.layer_nb(l)).collect();
            must!(obs.iter().sum::<usize>() == n, "{} points stored of {n}", obs.iter().sum::<usize>());
            judge_levels(&obs, s0 * f, nle, &format!("concurrent insertions, M {m}, factor {f}, {nl} layers"))?;
            cx.events += n as u64;
        }
        "fresh" => {
            // several indexes, seeds of the library itself: no control at all
            let k = 4;
            let mut tot = vec![0usize; 18];
            for r in 0..k {
                let mut cc = c.clone();
                cc.n = n / k;
                cc.seed = seed ^ r as u64;
                let sp = cc.space();
                levels_free();
                let mut ix = sp.create(&cc.p);
                insert_all(&mut ix, &cc.list(), *rng.pick(&[0, 2, 7]), 6, seed);
                for (l, t) in tot.iter_mut().enumerate() {
                    *t += ix.layer_nb(l);
                }
            }
            judge_levels(&tot, s0, nle, &format!("{k} indexes, M {m}, {nl} layers, library seeds"))?;
            cx.events += n as u64;
        }
        _ => {
            let fs: Vec<f64> = match idx % 4 {
                0 => vec![],
                1 => vec![*rng.pick(&[0., 0.2, 0.3, 0.5, 0.8, 1., 2.])],
                2 => vec![0.5, rng.f()],
                _ => vec![rng.f()],
            };
            let sp = c.space();
            let mut ix = c.create(&*sp);
            let mut s = s0;
            for f in &fs {
                ix.modify_scale(*f);
                s *= eff(*f);
            }
            insert_all(&mut ix, &c.list(), 0, 1, seed);
            let obs: Vec<usize> = (0..18).map(|l| ix.layer_nb(l)).collect();
            judge_levels(&obs, s, nle, &format!("serial insertions, M {m}, factors {fs:?}, {nl} layers"))?;
            let top = obs.iter().rposition(|x| *x > 0).unwrap_or(0);
            must!(
                ix.max_level_obs() as usize == top,
                "maximum level reported {}, highest layer with points {top}",
                ix.max_level_obs()
            );
            // the position ids tell the same levels
            let mut by = vec![0usize; 256];
            for (_, p) in ix.point_ids() {
                by[p.0 as usize] += 1;
            }
            must!(by[..18] == obs[..], "levels by position ids {:?}, by layer counts {:?}", &by[..18], obs);
            cx.events += n as u64;
        }
    }
    cx.key(hash_words(&[m as u64, nl as u64, n as u64, fnv(kind.as_bytes()), idx]));
    cx.sample(format!("M {m} layers {nl} points {}", c.n));
    Ok(())
}

/// C16 : levels drawn after a reload
pub fn levels_after_reload(seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let m = *rng.pick(&[2, 3, 4, 8, 16, 48]);
    let n = if cx.thorough { 40_000 } else { 9000 };
    let n0 = rng.range(1, 60);
    let mut c = cheap(seed, n + n0, m, 16);
    c.p.scale = if rng.chance(0.6) { Some(rng.f()) } else { None };
    let s = 1. / (m as f64).ln() * eff(c.p.scale.unwrap_or(1.));
    let sp = c.space();
    let mut ix = c.create(&*sp);
    let list = c.list();
    insert_all(&mut ix, &list[..n0], 0, 1, seed);
    let reloads = rng.range(1, 3);
    for r in 0..reloads {
        let d = cx.fresh();
        let b = match ix.dump(&d, "l") {
            Ok(b) => b,
            Err(e) => inc!("dump {e}"),
        };
        levels(seed ^ 0x1000 ^ r as u64, Lev::Natural);
        ix = match sp.reload(&d, &b, *rng.pick(&[How::Normal, How::WithDist, How::Mmap(1), How::Mmap(0)])) {
            Ok(i) => i,
            Err(e) => inc!("reload {e}"),
        };
    }
    let before: Vec<usize> = (0..18).map(|l| ix.layer_nb(l)).collect();
    let method = *rng.pick(&[0, 2, 7]);
    insert_all(&mut ix, &list[n0..], method, 6, seed);
    let obs: Vec<usize> = (0..18).map(|l| ix.layer_nb(l) - before[l]).collect();
    let w = format!("{n} insertions after {reloads} reloads, M {m}, factor {:?}", c.p.scale);
    must!(obs.iter().sum::<usize>() == n, "{w}: {} points stored", obs.iter().sum::<usize>());
    judge_levels(&obs, s, 16, &w)?;
    cx.events += n as u64;
    cx.key(hash_words(&[m as u64, n0 as u64, reloads as u64, method as u64]));
    cx.sample(w);
    Ok(())
}

// ---------------------------------------------------------------- C18

fn open_files(dir: &Path) -> (usize, usize) {
    let d = dir.to_string_lossy().into_owned();
    let maps = std::fs::read_to_string("/proc/self/maps")
        .map(|s| s.lines().filter(|l| l.contains(&d)).count())
        .unwrap_or(0);
    let mut fds = 0;
    if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
        for e in rd.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.to_string_lossy().contains(&d) {
                    fds += 1;
                }
            }
        }
    }
    (maps, fds)
}

/// one life of an index
fn life(c: &Cfg, sp: &dyn Space, kind: &str, dir: &Path, variant: u64) -> R<u64> {
    if kind == "panics" {
        return crate::pe::bomb_life(c.seed);
    }
    let mut ix = c.create(sp);
    let list = c.list();
    let n0 = if variant & 1 == 1 { c.n / 2 } else { c.n };
    insert_all(&mut ix, &list[..n0], c.method, c.threads, c.seed);
    let mut ev = n0 as u64;
    let use_it = |ix: &dyn Index| {
        for q in 0..5.min(c.n) {
            let _ = ix.search(q, 5, 20);
            let _ = ix.search_filter(q, 5, 20, Some(&Filt::Ids(vec![0, 1, 2, 3])));
        }
        if c.method >= 2 {
            let _ = ix.par_search(&[0, 0, 0], 3, 10);
        }
        let f = ix.flat();
        let _ = f.get(0);
        let _ = ix.points();
    };
    if variant & 2 == 2 {
        use_it(&*ix);
    }
    if kind == "held" {
        let held = ix.hold(1 + (variant as usize % 3));
        let want: Vec<Pt> = held.iter().map(|h| h.read()).collect();
        drop(ix);
        for (h, w) in held.iter().zip(&want) {
            let p = h.read();
            must!(p == *w, "point {:?} held by the user reads differently after the drop of the index", w.pid);
            let _ = h.nb_links();
            ev += 1;
        }
        return Ok(ev);
    }
    if kind == "refused" {
        let b = match ix.dump(dir, "m") {
            Ok(b) => b,
            Err(e) => inc!("dump {e}"),
        };
        // a dump that cannot be made
        if ix.dump(&dir.join("not").join("there"), "m").is_ok() {
            viol!("a dump in a directory that does not exist succeeds");
        }
        drop(ix);
        ev += refused(sp, dir, &b, variant)?;
        return Ok(ev);
    }
    if kind == "reload" {
        let b = match ix.dump(dir, "m") {
            Ok(b) => b,
            Err(e) => inc!("dump {e}"),
        };
        drop(ix);
        let how = match variant % 5 {
            0 => How::Normal,
            1 => How::WithDist,
            2 => How::Mmap(0),
            3 => How::Mmap(c.n / 3 + 1),
            _ => How::Normal,
        };
        if variant % 5 == 4 {
            let r = match reload_nodata(dir, &b, how) {
                Ok(r) => r,
                Err(e) => inc!("nodata reload {e}"),
            };
            let f = r.flat();
            let _ = f.get(0);
            ev += r.points().len() as u64;
            drop(r);
            drop(f);
            return Ok(ev);
        }
        let how = if sp.has_default() { how } else { How::WithDist };
        let mut r = match sp.reload(dir, &b, how) {
            Ok(r) => r,
            Err(e) => inc!("reload {e}"),
        };
        if n0 < c.n {
            insert_all(&mut r, &list[n0..], c.method, c.threads, c.seed);
        }
        use_it(&*r);
        let b2 = r.dump(dir, "m2");
        if let Ok(b2) = b2 {
            let m = sp.datamap(dir, &b2);
            if let Ok(m) = m {
                ev += m.nb() as u64;
            }
        }
        drop(r);
        return Ok(ev);
    }
    Ok(ev)
}

/// reloads of a damaged dump
fn refused(sp: &dyn Space, dir: &Path, b: &str, variant: u64) -> R<u64> {
    let dp = match crate::dumpfile::parse(dir, b) {
        Ok(d) => d,
        Err(e) => inc!("dump {e}"),
    };
    let (gp, dpath) = crate::dumpfile::paths(dir, b);
    let (mut g, mut d) = match (std::fs::read(&gp), std::fs::read(&dpath)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => inc!("scratch"),
    };
    let end = g.len() - 13;
    let last = |f: u8| dp.magics.iter().filter(|m| m.0 == f).map(|m| m.1).next_back().unwrap_or(0);
    match variant % 10 {
        0 => g.truncate(end),
        1 => g.truncate(g.len() - 1),
        2 => g[end + 9..].copy_from_slice(&i32::MAX.to_ne_bytes()),
        3 => {
            // the neighbours of the last point that has some
            let at: Vec<usize> = dp.magics.iter().filter(|m| m.0 == 0 && g[m.1..m.1 + 4] == 0x000a678fu32.to_ne_bytes()).map(|m| m.1).collect();
            let o = dp.pts.iter().zip(&at).filter(|(p, _)| !p.nb[0].is_empty()).map(|x| *x.1).next_back();
            match o {
                Some(o) => g[o + 25 + 9..o + 25 + 13].copy_from_slice(&i32::MAX.to_ne_bytes()),
                None => g.truncate(end),
            }
        }
        4 => g.truncate(g.len() / 2),
        5 => d.truncate(d.len() - 1),
        6 => d.truncate(d.len() / 2),
        7 => d[last(1)] ^= 1,
        8 => d[4] ^= 1,
        // last letter of the name of the metric
        _ => g[4 + 1 + 1 + 8 + 1 + 24 + 8 + dp.h.dname.len() - 1] ^= 1,
    }
    if std::fs::write(&gp, &g).is_err() || std::fs::write(&dpath, &d).is_err() {
        inc!("scratch");
    }
    let mut hows = vec![How::WithDist];
    if sp.has_default() {
        hows.extend([How::Normal, How::Mmap(0), How::Mmap(dp.pts.len() / 2 + 1)]);
    }
    let mut n = 0;
    for how in hows {
        if sp.reload(dir, b, how).is_ok() {
            viol!("reload {how:?} of a damaged dump succeeds (damage {})", variant % 10);
        }
        n += 1;
    }
    // these may succeed when the other file is damaged
    drop(reload_nodata(dir, b, How::Normal));
    drop(sp.datamap(dir, b));
    Ok(n + 2)
}

pub fn c18(kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = rand_cfg(
        &mut rng,
        &Want {
            nmin: 0,
            nmax: 150,
            dumpable: true,
            nq: 4,
            distinct_ids: true,
            dimmax: 40,
            ..Default::default()
        },
    );
    c.ids = 0;
    let threads = kind == "threads";
    if threads {
        c.method = *rng.pick(&[2, 3, 5, 6]);
        c.n = c.n.max(40);
        c.dim = c.dim.max(200);
        if KINDS[c.kind].sort == Sort::VarLen {
            c.kind = kind_by_name("f64/L1");
        }
        c.p.efc = c.p.efc.min(20);
    } else {
        c.method = *rng.pick(&[0, 1, 4]);
    }
    if kind == "reload" || kind == "held" || kind == "refused" {
        c.n = c.n.max(2);
    }
    let variant = rng.next() % 20;
    let sp = c.space();
    let dir = cx.dir.join("mem");
    let _ = std::fs::create_dir_all(&dir);
    let clean = || {
        if let Ok(rd) = std::fs::read_dir(&dir) {
            for e in rd.flatten() {
                let _ = std::fs::remove_file(e.path());
            }
        }
    };
    let lk = if threads { "mix" } else { kind };
    // warm up: what is allocated once (thread pool, generators of names, buffers of the standard library)
    let mut ev = 0;
    for _ in 0..2 {
        life(&c, &*sp, lk, &dir, variant)?;
        clean();
    }
    // The thread pool keeps a varying but bounded number of blocks of its queues: what must not happen is that
    // the least memory alive seen in a window of lives grows from window to window, again and again.
    let width = if threads { 6 } else { 4 };
    let mut mins: Vec<(i64, i64)> = Vec::with_capacity(64);
    let mut least = 0usize;
    for w in 0..14 {
        let mut mn = (i64::MAX, i64::MAX);
        for _ in 0..width {
            ev += life(&c, &*sp, lk, &dir, variant)?;
            let (b, k) = crate::mem::live();
            mn = (mn.0.min(b), mn.1.min(k));
            let (maps, fds) = open_files(&dir);
            must!(
                maps == 0 && fds == 0,
                "{maps} mappings and {fds} descriptors of the dump remain after the drop of the index ({kind}, variant {variant}) {}",
                c.text()
            );
            clean();
            cx.events += 1;
            least += 1;
        }
        mins.push(mn);
        // four windows when nothing grows, fourteen before an alarm
        if w >= 3 && mins.windows(2).any(|p| p[1].0 <= p[0].0 || p[1].1 <= p[0].1) {
            break;
        }
    }
    cx.events += ev;
    cx.count("lives", least as u64);
    let grows = mins.len() == 14 && mins.windows(2).all(|p| p[1].0 > p[0].0 && p[1].1 > p[0].1);
    must!(
        !grows,
        "memory alive after the drop of the index grows without end: {least} indexes of {} points built and dropped, least (bytes, blocks) alive by groups of {width}: {:?} ({kind}, variant {variant}) {}",
        c.n,
        mins,
        c.text()
    );
    if c.n > 1 {
        cx.key(c.key() ^ mix(variant) ^ idx);
    }
    cx.sample(format!("variant {variant} {}", c.text()));
    Ok(())
}

// ---------------------------------------------------------------- C20

/// the workloads of the other checks, under a sanitizer; their own verdicts do not count here
pub fn c20(kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    if kind == "probe" {
        return crate::probe::probe(idx, cx);
    }
    let sub = kind.split('-').nth(1).unwrap_or("C01.mix");
    let (p, k) = match sub.split_once('.') {
        Some(x) => x,
        None => inc!("kind {kind}"),
    };
    let r = crate::props::run(p, k, seed, idx, cx);
    match r {
        // a wrong answer is for another check; a read of wrong memory is for this one
        Err(Fail::Viol(m)) if m.starts_with("panic") => viol!("{m}"),
        Err(Fail::Viol(m)) => {
            cx.count("verdicts_of_other_checks", 1);
            cx.sample(format!("(other property) {m}"));
            Ok(())
        }
        _ => Ok(()),
    }
}
