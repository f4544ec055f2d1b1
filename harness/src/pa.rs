//! C01 .. C08 : content, searches, graph.

use crate::cfg::*;
use crate::core::*;
use crate::ctl::*;
use crate::ctx::Ctx;
use crate::oracle::*;
use crate::rng::*;
use crate::spaces::*;
use crate::{inc, must, viol};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

/// some schedule disturbance
pub fn disturb(rng: &mut Rng) -> Inj {
    match rng.below(10) {
        0 => Inj::Record,
        1 => Inj::Random(0.5),
        2 | 3 => Inj::Random(0.1),
        4 | 5 => Inj::Random(0.02),
        6 => Inj::Rendezvous(3, rng.range(2, 4) as u32, 0.02),
        7 => Inj::Rendezvous(7, rng.range(2, 4) as u32, 0.05),
        8 => Inj::Rendezvous(1, rng.range(2, 4) as u32, 0.05),
        _ => Inj::Rendezvous(rng.range(1, 8) as u32, rng.range(2, 4) as u32, 0.1),
    }
}

/// nothing smaller bounds the number or the width asked for
pub const HUGE: [usize; 5] = [usize::MAX, usize::MAX - 1, 1 << 62, 1 << 47, 1 << 36];

pub fn pick_k(rng: &mut Rng, n: usize) -> usize {
    if rng.chance(0.04) {
        return *rng.pick(&HUGE);
    }
    match rng.below(9) {
        0 => 0,
        1 => 1,
        2 => n.saturating_sub(1),
        3 => n,
        4 => n + 5,
        5 => 1000,
        6 => 2,
        _ => rng.range(1, 2 + n / 2),
    }
}

pub fn pick_ef(rng: &mut Rng, n: usize, k: usize) -> usize {
    if rng.chance(0.04) {
        return *rng.pick(&HUGE);
    }
    match rng.below(9) {
        0 => 0,
        1 => 1,
        2 => k.saturating_sub(1),
        3 => k,
        4 => n,
        5 => n + 7,
        6 => 1000,
        _ => rng.range(1, 2 + n),
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    match kind {
        "mix" => {
            let mut c = rand_cfg(
                &mut rng,
                &Want {
                    nmin: 0,
                    nmax: 500,
                    distinct_ids: false,
                    nq: 4,
                    ..Default::default()
                },
            );
            if rng.chance(0.05) {
                c.n = 0;
            }
            let sp = c.space();
            let mut ix = c.create(&*sp);
            content(&*sp, &*ix, &[])?;
            let list = c.list();
            inject(seed, disturb(&mut rng));
            // in stages, by different methods, content judged at each quiescent point
            let stages = rng.range(1, 3);
            let mut done = 0;
            for s in 0..stages {
                let e = if s + 1 == stages { list.len() } else { rng.range(done, list.len()) };
                let method = if s == 0 { c.method } else { rng.below(9) as u8 };
                insert_all(&mut ix, &list[done..e], method, c.threads, seed ^ s as u64);
                done = e;
                content(&*sp, &*ix, &list[..done])?;
                cx.events += done as u64;
                if rng.chance(0.3) {
                    ix.set_searching(true);
                    let _ = ix.search(c.n, 3, 10);
                    content(&*sp, &*ix, &list[..done])?;
                    ix.set_searching(false);
                }
            }
            cx.schedule();
            if c.n > 1 {
                cx.key(c.key() ^ mix(stages as u64));
            }
            cx.sample(c.text());
        }
        "race" => {
            // few points, many threads, the first insertions interleaved
            let c = Cfg {
                n: rng.range(2, 24),
                nq: 2,
                dim: 3,
                method: rng.range(7, 8) as u8,
                threads: rng.range(2, 8),
                ..rand_cfg(
                    &mut rng,
                    &Want {
                        nmax: 24,
                        distinct_ids: false,
                        ..Default::default()
                    },
                )
            };
            let sp = c.space();
            for r in 0..6 {
                let mut ix = c.create(&*sp);
                let list = c.list();
                inject(seed ^ r, disturb(&mut rng));
                insert_all(&mut ix, &list, c.method, c.threads, seed ^ r);
                cx.schedule();
                content(&*sp, &*ix, &list)?;
                cx.events += list.len() as u64;
            }
            cx.key(c.key());
            cx.sample(c.text());
        }
        _ => {
            // many points
            let kinds = ["f32/L2", "u8/L1", "f64/L1", "i64/L1"];
            let kd = kind_by_name(kinds[rng.below(4)]);
            let n = rng.range(8000, 30000);
            let mut c = Cfg {
                kind: kd,
                style: Style::Uniform,
                n,
                nq: 0,
                dim: 2,
                p: Params {
                    m: rng.range(2, 5),
                    max_elem: n,
                    max_layer: 16,
                    efc: rng.range(2, 8),
                    extend: false,
                    keep: false,
                    scale: None,
                },
                lev: *rng.pick(&[Lev::Natural, Lev::Half, Lev::Uniform(0, 3)]),
                ids: rng.below(8) as u8,
                method: *rng.pick(&[2, 3, 5, 6, 7, 8]),
                threads: 8,
                seed,
            };
            if kind == "huge" {
                hugely(&mut rng, &mut c);
            }
            let sp = c.space();
            inject(seed, Inj::Random(0.0005));
            let (ix, list) = c.build(&*sp);
            cx.schedule();
            content(&*sp, &*ix, &list)?;
            cx.events += c.n as u64;
            cx.key(c.key());
            cx.sample(c.text());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

pub fn c02(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = rand_cfg(
        &mut rng,
        &Want {
            nmin: 1,
            nmax: if kind == "large" { 4000 } else { 400 },
            distinct_ids: false,
            dumpable: kind == "reload",
            nq: 20,
            dimmax: if kind == "large" { 8 } else { 24 },
            ..Default::default()
        },
    );
    if kind == "large" {
        c.n = c.n.max(500);
        c.p.efc = c.p.efc.min(40);
        c.p.extend = false;
    }
    if kind == "any" && rng.chance(0.08) {
        c.n = 0;
    }
    if kind == "huge" {
        hugely(&mut rng, &mut c);
    }
    let sp = c.space();
    inject(seed, if kind == "huge" { Inj::Off } else { disturb(&mut rng) });
    let (mut ix, _) = c.build(&*sp);
    cx.schedule();
    inject(seed, Inj::Off);
    if kind == "reload" && c.n > 0 {
        let d = cx.fresh();
        let b = match ix.dump(&d, "b") {
            Ok(b) => b,
            Err(e) => inc!("dump: {e}"),
        };
        let how = match rng.below(3) {
            0 => How::Normal,
            1 => How::WithDist,
            _ => How::Mmap(rng.below(c.n + 2)),
        };
        ix = match sp.reload(&d, &b, how) {
            Ok(i) => i,
            Err(e) => inc!("reload: {e}"),
        };
    }
    let t = Table::of(&*ix);
    if rng.chance(0.3) {
        ix.set_searching(true);
    }
    let nqs = match kind {
        "large" => 60,
        "huge" => 12,
        _ => 50,
    };
    let mut nonempty = 0u64;
    for i in 0..nqs {
        let q = if c.n > 0 && i % 3 == 2 { rng.below(c.n) } else { c.n + rng.below(c.nq) };
        let k = pick_k(&mut rng, c.n);
        let ef = pick_ef(&mut rng, c.n, k);
        let a = match rng.below(4) {
            0 => ix.search_filter(q, k, ef, None),
            1 => ix.api_search(q, k, ef),
            _ => ix.search(q, k, ef),
        };
        answer_full(&*sp, &t, q, k, &a).map_err(|e| tag(e, &format!("k {k} ef {ef} n {}", c.n)))?;
        nonempty += u64::from(!a.is_empty());
        cx.events += a.len() as u64 + 1;
    }
    let qs: Vec<usize> = (0..rng.below(12)).map(|_| rng.below(c.n + c.nq)).collect();
    let k = pick_k(&mut rng, c.n);
    let ef = pick_ef(&mut rng, c.n, k);
    let r = if rng.chance(0.5) { ix.par_search(&qs, k, ef) } else { ix.api_par_search(&qs, k, ef) };
    must!(r.len() == qs.len(), "parallel search gives {} answers to {} queries", r.len(), qs.len());
    for (q, a) in qs.iter().zip(&r) {
        answer_full(&*sp, &t, *q, k, a)?;
        cx.events += a.len() as u64 + 1;
    }
    if nonempty > 0 {
        cx.key(c.key());
    }
    cx.sample(c.text());
    Ok(())
}

pub fn tag(e: Fail, s: &str) -> Fail {
    match e {
        Fail::Viol(m) => Fail::Viol(format!("{m} [{s}]")),
        Fail::Inc(m) => Fail::Inc(format!("{m} [{s}]")),
    }
}

// ---------------------------------------------------------------- C03

/// all searches wide enough are exact
pub fn exact_all(sp: &dyn Space, ix: &dyn Index, n: usize, qs: &[usize], rng: &mut Rng, cx: &mut Ctx) -> R<()> {
    let t = Table::of(ix);
    for q in qs {
        let bf = brute(sp, &t, *q, &|_| true);
        let k = match rng.below(4) {
            0 => n,
            1 => 1,
            2 if rng.chance(0.1) => *rng.pick(&HUGE),
            2 => n + 3,
            _ => rng.range(1, n.max(1)),
        };
        let ef = match rng.below(3) {
            0 => n,
            1 if rng.chance(0.1) => *rng.pick(&HUGE),
            1 => n + 1 + rng.below(50),
            _ => 1000.max(n),
        };
        let a = ix.search(*q, k, ef);
        answer(sp, &t, *q, k, &a)?;
        exact(&bf, k, &a, &format!("search k {k} ef {ef} on {n} points, M {}", ix.m()))?;
        cx.events += a.len() as u64;
    }
    Ok(())
}

pub fn c03(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let w = Want {
        nmin: 1,
        nmax: match kind {
            "conc" => 16,
            "wide" => 255,
            _ => 90,
        },
        small: true,
        distinct_ids: false,
        nq: 16,
        serial: kind == "serial",
        ..Default::default()
    };
    let mut c = rand_cfg(&mut rng, &w);
    match kind {
        "conc" => {
            c.n = c.n.max(2);
            c.p.m = c.p.m.max(c.n);
            c.method = *rng.pick(&[2, 3, 7, 7, 7, 8]);
            c.threads = rng.range(2, c.n.clamp(2, 8));
            c.dim = c.dim.min(4);
            for r in 0..8u64 {
                let mut cc = c.clone();
                cc.seed = seed ^ (r << 40);
                cc.lev = pick_levels(&mut rng);
                let sp = cc.space();
                let mut ix = cc.create(&*sp);
                inject(cc.seed, disturb(&mut rng));
                insert_all(&mut ix, &cc.list(), cc.method, cc.threads, cc.seed);
                cx.schedule();
                inject(cc.seed, Inj::Off);
                exact_all(&*sp, &*ix, cc.n, &(0..cc.n + 4).collect::<Vec<_>>(), &mut rng, cx)
                    .map_err(|e| tag(e, &cc.text()))?;
                cx.key(cc.key() ^ mix(r));
            }
        }
        _ => {
            let sp = c.space();
            inject(seed, disturb(&mut rng));
            let (ix, _) = c.build(&*sp);
            cx.schedule();
            inject(seed, Inj::Off);
            let mut qs = c.queries();
            qs.extend((0..c.n).take(30));
            exact_all(&*sp, &*ix, c.n, &qs, &mut rng, cx)?;
            if c.n > 1 {
                cx.key(c.key());
            }
        }
    }
    cx.sample(c.text());
    Ok(())
}

// ---------------------------------------------------------------- C04

/// recall of the 10 nearest, in % of (query, neighbour), by distance
fn recall(sp: &dyn Space, ix: &dyn Index, n: usize, truth: &[(usize, Vec<f32>)], ef: usize) -> f64 {
    let mut hit = 0usize;
    let mut tot = 0usize;
    let _ = (sp, n);
    for (q, bf) in truth {
        let a = ix.search(*q, 10, ef);
        let lim = bf[9];
        hit += a.iter().filter(|x| x.d <= lim * (1. + 1e-5) + 1e-7).count().min(10);
        tot += 10;
    }
    hit as f64 / tot as f64
}

pub fn c04(kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let names = ["f32/L2", "f32/Count", "f32/L1", "f32/Cosine", "f64/L2", "f64/L1", "f64/Cosine", "pair/Pair"];
    let (n, nq) = match kind {
        "ten" => (10_000, 400),
        "sixty" => (rng.range(66_000, 70_000), 200),
        _ => (rng.range(2000, 5000), 300),
    };
    let name = if kind == "ten" || kind == "sixty" { "f32/Count" } else { names[(idx as usize + rng.below(2)) % names.len()] };
    let cosine = name.contains("Cosine");
    let dim = if name == "pair/Pair" {
        rng.range(2, 8)
    } else if cosine {
        rng.range(3, 16)
    } else if kind == "sixty" {
        *rng.pick(&[2, 4, 6, 8])
    } else {
        *rng.pick(&[1, 2, 4, 8, 8, 12, 16, 16])
    };
    let m = if kind == "sixty" { 16 } else { *rng.pick(&[12, 12, 16, 24, 48]) };
    let c = Cfg {
        kind: kind_by_name(name),
        style: if rng.chance(0.6) { Style::Uniform } else { Style::Gauss },
        n,
        nq,
        dim,
        p: Params {
            m,
            max_elem: *rng.pick(&[n, 1, 2 * n]),
            max_layer: 16,
            efc: *rng.pick(&[100, 100, 200]),
            // off, as in the default
            extend: false,
            keep: rng.chance(0.2),
            scale: None,
        },
        lev: Lev::Natural,
        ids: rng.below(6) as u8,
        method: *rng.pick(&[0, 2, 2, 3, 7]),
        threads: 6,
        seed,
    };
    let sp = c.space();
    let (ix, list) = c.build(&*sp);
    let t = Table::of(&*ix);
    must!(t.pts.len() == n, "{} points stored of {n}", t.pts.len());
    // truth
    let qs: Vec<usize> = (n..n + nq).collect();
    let truth: Vec<(usize, Vec<f32>)> = {
        use rayon::prelude::*;
        let spr = &sp;
        qs.par_iter()
            .map(|q| {
                let mut v: Vec<f32> = (0..n).map(|i| spr.dist(*q, i)).collect();
                v.sort_by(|a, b| a.total_cmp(b));
                v.truncate(10);
                (*q, v)
            })
            .collect()
    };
    let txt = c.text();
    let e0 = EVALS.load(SeqCst);
    let r64 = recall(&*sp, &*ix, n, &truth, 64);
    let e1 = EVALS.load(SeqCst);
    let r128 = recall(&*sp, &*ix, n, &truth, 128);
    let r256 = recall(&*sp, &*ix, n, &truth, 256);
    cx.count("recall64_x1000_sum", (r64 * 1000.) as u64);
    cx.count("recall_min_miss_x1000_sum", ((1. - r64) * 1000.) as u64);
    cx.events += 3 * nq as u64 * 10;
    let (rmin, smin) = if c.p.keep { (0.9, 0.95) } else { (0.95, 0.99) };
    let r16 = recall(&*sp, &*ix, n, &truth, 16);
    must!(r64 >= r16 - 0.01, "recall drops with ef: 16 {r16:.4}, 64 {r64:.4} on {txt}");
    must!(r64 >= rmin, "mean recall@10 is {r64:.4} with ef 64 (128: {r128:.4}, 256: {r256:.4}) on {txt}");
    must!(
        r128 >= r64 - 0.01 && r256 >= r128 - 0.01,
        "recall drops with ef: 64 {r64:.4}, 128 {r128:.4}, 256 {r256:.4} on {txt}"
    );
    if name == "f32/Count" {
        let per = (e1 - e0) as f64 / nq as f64;
        cx.count("evals_per_query_sum", per as u64);
        cx.sample(format!("{per:.0} evaluations per query, {txt}"));
        if n >= 10_000 {
            must!(per < n as f64 / 2., "a search with ef 64 evaluates the metric {per:.0} times for {n} points on {txt}");
        }
    }
    // stored vectors find themselves
    let mut ok = 0;
    let mut tot = 0;
    let step = match kind {
        "ten" => 4,
        "sixty" => 20,
        _ => 1,
    };
    for (i, _) in list.iter().step_by(step) {
        let a = ix.search(*i, 10, 64);
        let d0 = sp.dist(*i, *i);
        tot += 1;
        if let Some(f) = a.first() {
            if (f.d - d0).abs() <= 1e-6 {
                ok += 1;
            }
        }
    }
    cx.events += tot as u64;
    let p = ok as f64 / tot as f64;
    cx.count("self_missed", (tot - ok) as u64);
    must!(p >= smin, "{:.2} % of {tot} stored vectors are found first at distance 0 on {txt}", 100. * p);
    cx.key(c.key());
    cx.sample(format!("recall64 {r64:.4} recall128 {r128:.4} recall256 {r256:.4} self {p:.4} {txt}"));
    Ok(())
}

// ---------------------------------------------------------------- C05

fn any_filter(rng: &mut Rng, ids: &[usize]) -> (Vec<usize>, String) {
    let mut v: Vec<usize> = match rng.below(8) {
        0 => vec![],
        1 => vec![*rng.pick(ids)],
        2 => (0..3).map(|_| *rng.pick(ids)).collect(),
        3 => ids.iter().copied().filter(|_| rng.chance(0.5)).collect(),
        4 => ids.iter().copied().filter(|_| rng.chance(0.05)).collect(),
        5 => ids.iter().copied().filter(|_| rng.chance(0.95)).collect(),
        6 => ids.to_vec(),
        _ => {
            // ids that are not stored, and some that are
            let mut v: Vec<usize> = (0..10).map(|_| rng.next() as usize).collect();
            v.extend(ids.iter().take(rng.below(3)));
            v
        }
    };
    v.sort_unstable();
    v.dedup();
    let d = format!("filter of {} ids out of {}", v.len(), ids.len());
    (v, d)
}

pub fn c05(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let small = kind == "small";
    let distinct_ids = rng.next() % 4 != 0;
    let mut c = rand_cfg(
        &mut rng,
        &Want {
            nmin: 1,
            nmax: match kind {
                "small" => 120,
                "large" => 3000,
                _ => 400,
            },
            small,
            distinct_ids,
            nq: 16,
            dimmax: if kind == "large" { 6 } else { 24 },
            ..Default::default()
        },
    );
    if kind == "large" {
        c.n = c.n.max(600);
        c.p.efc = c.p.efc.min(40);
        c.p.extend = false;
    }
    let sp = c.space();
    inject(seed, disturb(&mut rng));
    let (ix, list) = c.build(&*sp);
    cx.schedule();
    inject(seed, Inj::Off);
    let t = Table::of(&*ix);
    let ids: Vec<usize> = list.iter().map(|x| x.1).collect();
    let mut allowed_seen = 0u64;
    for r in 0..40 {
        let (allow, txt) = any_filter(&mut rng, &ids);
        let set: HashSet<usize> = allow.iter().copied().collect();
        let f = |id: usize| set.contains(&id);
        let calls = AtomicUsize::new(0);
        let fc = |id: usize| {
            calls.fetch_add(1, SeqCst);
            set.contains(&id)
        };
        let q = if r % 3 == 0 { rng.below(c.n) } else { c.n + rng.below(c.nq) };
        let (k, ef) = if small && rng.chance(0.7) {
            (rng.range(1, c.n + 2), c.n + rng.below(20))
        } else {
            let k = pick_k(&mut rng, c.n);
            (k, pick_ef(&mut rng, c.n, k))
        };
        let byfun = rng.chance(0.5);
        let filt = if byfun { Filt::Fun(&fc) } else { Filt::Ids(allow.clone()) };
        let what = format!("{txt}, {}, k {k} ef {ef}, {} points", if byfun { "function" } else { "list" }, c.n);
        let a = ix.search_filter(q, k, ef, Some(&filt));
        for x in &a {
            must!(f(x.id), "filtered search returns id {} which the filter rejects ({what})", x.id);
        }
        answer(&*sp, &t, q, k, &a).map_err(|e| tag(e, &what))?;
        cx.events += a.len() as u64 + 1;
        allowed_seen += a.len() as u64;
        if small && ef >= c.n {
            let bf = brute(&*sp, &t, q, &f);
            exact(&bf, k, &a, &format!("filtered search ({what})"))?;
        }
        // accept all
        if r % 4 == 0 {
            let yes = |_: usize| true;
            let u = ix.search(q, k, ef);
            let (a1, a2);
            a1 = ix.search_filter(q, k, ef, Some(&Filt::Fun(&yes)));
            let mut all = ids.clone();
            all.sort_unstable();
            a2 = ix.search_filter(q, k, ef, Some(&Filt::Ids(all)));
            for (x, w) in [(&a1, "function"), (&a2, "list")] {
                answer_full(&*sp, &t, q, k, x)?;
                must!(
                    x.len() == u.len() && x.iter().zip(&u).all(|(p, q)| p.d == q.d),
                    "search with a {w} accepting all points gives another answer than without filter (k {k} ef {ef}): {:?} / {:?}",
                    x,
                    u
                );
            }
            cx.events += 3;
        }
    }
    cx.count("filtered_entries", allowed_seen);
    if c.n > 1 {
        cx.key(c.key());
    }
    cx.sample(c.text());
    Ok(())
}

// ---------------------------------------------------------------- C06

pub fn c06(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = rand_cfg(
        &mut rng,
        &Want {
            nmin: 0,
            nmax: 500,
            distinct_ids: false,
            dumpable: kind == "readonly",
            nq: 64,
            ..Default::default()
        },
    );
    if kind == "readonly" {
        c.n = c.n.max(1);
    }
    if kind == "huge" {
        c.n = c.n.clamp(1, 60);
        c.dim = c.dim.min(4);
    }
    let sp = c.space();
    let (mut ix, list) = c.build(&*sp);
    if rng.chance(0.3) {
        ix.set_searching(true);
    }
    inject(seed, disturb(&mut rng));
    let g0 = ix.graph();
    let all = c.n + c.nq;
    match kind {
        "batch" | "huge" => {
            for r in 0..6 {
                let b = match rng.below(6) {
                    _ if kind == "huge" && r > 0 => break,
                    _ if kind == "huge" => rng.range(65537, 140000),
                    0 => 0,
                    1 => 1,
                    2 => rng.range(200, 1500),
                    _ => rng.range(2, 100),
                };
                let qs: Vec<usize> = (0..b).map(|_| rng.below(all)).collect();
                let k = pick_k(&mut rng, c.n).min(60);
                let ef = pick_ef(&mut rng, c.n, k).min(200);
                let th = *rng.pick(&[0, 1, 2, 3, 8]);
                let api = rng.chance(0.3);
                let ixr: &dyn Index = &*ix;
                let job = || if api { ixr.api_par_search(&qs, k, ef) } else { ixr.par_search(&qs, k, ef) };
                let r = if th == 0 {
                    job()
                } else {
                    let pool = match rayon::ThreadPoolBuilder::new().num_threads(th).build() {
                        Ok(p) => p,
                        Err(e) => inc!("pool {e}"),
                    };
                    pool.install(job)
                };
                must!(r.len() == b, "batch of {b} queries gets {} answers", r.len());
                for (i, q) in qs.iter().enumerate() {
                    let s = ixr.search(*q, k, ef);
                    must!(
                        s == r[i],
                        "answer {i} of a batch of {b} differs from the single search (k {k} ef {ef} n {}, {th} threads): {:?} / {:?}",
                        c.n,
                        r[i].iter().take(4).collect::<Vec<_>>(),
                        s.iter().take(4).collect::<Vec<_>>()
                    );
                }
                cx.events += b as u64;
                cx.count("batches", 1);
            }
            cx.schedule();
        }
        _ => {
            let d = cx.fresh();
            let qs: Vec<(usize, usize, usize)> = (0..12)
                .map(|_| {
                    let k = pick_k(&mut rng, c.n);
                    (rng.below(all), k, pick_ef(&mut rng, c.n, k))
                })
                .collect();
            let first: Vec<Vec<Nb>> = qs.iter().map(|(q, k, ef)| ix.search(*q, *k, *ef)).collect();
            let ids: Vec<usize> = {
                let mut v: Vec<usize> = list.iter().map(|x| x.1).filter(|i| i % 2 == 0).collect();
                v.sort_unstable();
                v
            };
            let ff: Vec<Vec<Nb>> = qs.iter().map(|(q, k, ef)| ix.search_filter(*q, *k, *ef, Some(&Filt::Ids(ids.clone())))).collect();
            let fl0: Vec<Option<Vec<Nb>>> = {
                let f = ix.flat();
                list.iter().map(|x| f.get(x.1)).collect()
            };
            let ops = rng.range(4, 10);
            let mut dumps = 0;
            for _ in 0..ops {
                match rng.below(8) {
                    0 => {
                        let _ = ix.flat();
                    }
                    1 => {
                        if let Err(e) = ix.dump(&d, &format!("x{dumps}")) {
                            inc!("dump {e}");
                        }
                        dumps += 1;
                    }
                    2 => {
                        let _ = ix.points();
                    }
                    3 => {
                        for l in 0..ix.max_level().min(16) {
                            let _ = ix.layer_points(l);
                        }
                    }
                    4 => {
                        let qs: Vec<usize> = (0..50).map(|_| rng.below(all)).collect();
                        let _ = ix.par_search(&qs, 5, 20);
                    }
                    5 => {
                        let b = rng.chance(0.5);
                        ix.set_searching(b);
                    }
                    6 => {
                        // concurrent readers
                        let ixr: &dyn Index = &*ix;
                        let idsr = &ids;
                        let qsr = &qs;
                        let (fr, ffr) = (&first, &ff);
                        let bad = AtomicUsize::new(usize::MAX);
                        let badr = &bad;
                        std::thread::scope(|s| {
                            for t in 0..4 {
                                s.spawn(move || {
                                    for (i, (q, k, ef)) in qsr.iter().enumerate() {
                                        let same = if t % 2 == 0 {
                                            ixr.search(*q, *k, *ef) == fr[i]
                                        } else {
                                            ixr.search_filter(*q, *k, *ef, Some(&Filt::Ids(idsr.clone()))) == ffr[i]
                                        };
                                        if !same {
                                            badr.store(i, SeqCst);
                                        }
                                    }
                                    let _ = ixr.point_ids();
                                });
                            }
                        });
                        let b = bad.load(SeqCst);
                        must!(b == usize::MAX, "concurrent readers get another answer to query {:?}", qs.get(b));
                    }
                    _ => {
                        for (q, k, ef) in &qs {
                            let no = |_: usize| false;
                            let _ = ix.search_filter(*q, *k, *ef, Some(&Filt::Fun(&no)));
                        }
                    }
                }
                cx.events += 1;
            }
            for (i, (q, k, ef)) in qs.iter().enumerate() {
                must!(
                    ix.search(*q, *k, *ef) == first[i],
                    "search of query {q} k {k} ef {ef} changed after read only operations"
                );
                must!(
                    ix.search_filter(*q, *k, *ef, Some(&Filt::Ids(ids.clone()))) == ff[i],
                    "filtered search of query {q} k {k} ef {ef} changed after read only operations"
                );
                cx.events += 2;
            }
            let f = ix.flat();
            let fl1: Vec<Option<Vec<Nb>>> = list.iter().map(|x| f.get(x.1)).collect();
            if c.ids < 6 {
                must!(fl0 == fl1, "flattened neighbourhood changed after read only operations");
            }
        }
    }
    let g1 = ix.graph();
    must!(g0 == g1, "stored graph changed by read only operations");
    cx.events += g0.len() as u64;
    if c.n > 1 {
        cx.key(c.key());
    }
    cx.sample(c.text());
    Ok(())
}

// ---------------------------------------------------------------- C07

struct Run<'a> {
    sp: &'a dyn Space,
    list: &'a [(usize, usize)],
    by_id: HashMap<usize, usize>,
    started: Vec<AtomicBool>,
    done: Vec<AtomicBool>,
    ndone: AtomicUsize,
    nstarted: AtomicUsize,
    c: &'a Cfg,
    small: bool,
    fail: std::sync::Mutex<Vec<String>>,
    stop: AtomicBool,
    pids: std::sync::Mutex<Vec<(usize, Pid)>>,
    judged: AtomicUsize,
    maxlev: AtomicUsize,
}

impl Run<'_> {
    fn report(&self, m: String) {
        self.fail.lock().unwrap().push(m);
        self.stop.store(true, SeqCst);
    }

    fn judge_search(&self, q: usize, k: usize, ef: usize, a: &[Nb], done_before: &[usize], acc: &dyn Fn(usize) -> bool, filtered: bool) -> Result<(), String> {
        let what = format!("concurrent search k {k} ef {ef}{}", if filtered { " filtered" } else { "" });
        if a.len() > k {
            return Err(format!("{what}: {} entries", a.len()));
        }
        let mut seen = HashSet::new();
        let mut last = f32::NEG_INFINITY;
        let mut pl = Vec::new();
        for x in a {
            if x.d < last || x.d.is_nan() {
                return Err(format!("{what}: not sorted {} after {last}", x.d));
            }
            last = x.d;
            if !seen.insert(x.id) {
                return Err(format!("{what}: id {} twice", x.id));
            }
            let i = match self.by_id.get(&x.id) {
                Some(i) => *i,
                None => return Err(format!("{what}: unknown id {}", x.id)),
            };
            if !self.started[i].load(SeqCst) {
                return Err(format!("{what}: id {} returned before its insertion started", x.id));
            }
            if !acc(x.id) {
                return Err(format!("{what}: id {} rejected by the filter", x.id));
            }
            let b = self.sp.vbytes(self.list[i].0);
            if !dist_ok(self.sp, q, &b, x.d) {
                return Err(format!("{what}: id {} at distance {} instead of {}", x.id, x.d, self.sp.dist_qb(q, &b)));
            }
            pl.push((x.id, x.pid));
        }
        if !done_before.is_empty() && k > 0 && a.is_empty() && !filtered {
            return Err(format!("{what}: empty answer, {} points inserted", done_before.len()));
        }
        if self.small && ef >= self.c.n {
            let got: HashSet<usize> = seen;
            for i in done_before {
                let (v, id) = self.list[*i];
                if !acc(id) || got.contains(&id) {
                    continue;
                }
                let d = self.sp.dist(q, v);
                if a.len() < k || (d < last && !near(d, last)) {
                    return Err(format!(
                        "{what}: id {id} inserted before the search at distance {d} is missing, answer has {} entries up to {last} ({} inserted)",
                        a.len(),
                        done_before.len()
                    ));
                }
            }
        }
        self.judged.fetch_add(1, SeqCst);
        if let Ok(mut g) = self.pids.lock() {
            if g.len() < 20000 {
                g.extend(pl);
            }
        }
        Ok(())
    }

    fn done_list(&self) -> Vec<usize> {
        (0..self.list.len()).filter(|i| self.done[*i].load(SeqCst)).collect()
    }

    fn insert_one(&self, ix: &dyn Index, i: usize, slice: bool) {
        self.started[i].store(true, SeqCst);
        self.nstarted.fetch_add(1, SeqCst);
        let (v, id) = self.list[i];
        if slice {
            ix.insert_slice(v, id);
        } else {
            ix.insert(v, id);
        }
        self.done[i].store(true, SeqCst);
        self.ndone.fetch_add(1, SeqCst);
    }

    fn insert_many(&self, ix: &dyn Index, part: &[usize], slice: bool) {
        for i in part {
            self.started[*i].store(true, SeqCst);
            self.nstarted.fetch_add(1, SeqCst);
        }
        let l: Vec<(usize, usize)> = part.iter().map(|i| self.list[*i]).collect();
        if slice {
            ix.par_insert_slice(&l);
        } else {
            ix.par_insert(&l);
        }
        for i in part {
            self.done[*i].store(true, SeqCst);
            self.ndone.fetch_add(1, SeqCst);
        }
    }

    fn read_op(&self, ix: &dyn Index, rng: &mut Rng) -> Result<(), String> {
        let n = self.list.len();
        let q = rng.below(n + self.c.nq);
        let before = self.done_list();
        match rng.below(11) {
            0..=4 => {
                let k = pick_k(rng, n);
                let ef = if rng.chance(0.6) { n + rng.below(10) } else { pick_ef(rng, n, k) };
                let a = ix.search(q, k, ef);
                self.judge_search(q, k, ef.max(k), &a, &before, &|_| true, false)
            }
            5 | 6 => {
                let md = rng.range(1, 4);
                let f = move |id: usize| id % md == 0;
                let k = rng.range(1, n + 2);
                let ef = if rng.chance(0.6) { n + rng.below(10) } else { rng.range(1, n + 1) };
                let a = if rng.chance(0.5) {
                    ix.search_filter(q, k, ef, Some(&Filt::Fun(&f)))
                } else {
                    let mut l: Vec<usize> = self.list.iter().map(|x| x.1).filter(|x| f(*x)).collect();
                    l.sort_unstable();
                    ix.search_filter(q, k, ef, Some(&Filt::Ids(l)))
                };
                self.judge_search(q, k, ef, &a, &before, &f, true)
            }
            7 => {
                let qs: Vec<usize> = (0..rng.range(1, 6)).map(|_| rng.below(n + self.c.nq)).collect();
                let k = rng.range(1, n + 2);
                let r = ix.par_search(&qs, k, n);
                if r.len() != qs.len() {
                    return Err("batch answer length".into());
                }
                for (q, a) in qs.iter().zip(&r) {
                    self.judge_search(*q, k, n.max(k), a, &before, &|_| true, false)?;
                }
                Ok(())
            }
            // accessors by the thread that iterates. Not searches: they ask for the lock the iterator holds
            10 => {
                let layer = if rng.chance(0.3) { Some(rng.below(self.c.p.max_layer.min(16))) } else { None };
                let pall = rng.below(101) as f64 * 0.01;
                let mut fail = None;
                let nid = self.c.p.m * 40;
                let mut seen = HashSet::new();
                let visited = ix.walk(layer, &mut |id, p, nb| {
                    if !seen.insert(id) {
                        fail = Some(format!("iteration with accessors gives id {id} twice"));
                    }
                    match self.by_id.get(&id) {
                        Some(i) if self.started[*i].load(SeqCst) => {}
                        _ => fail = Some(format!("iteration with accessors gives id {id} whose insertion has not started")),
                    }
                    if nb > nid.max(1) {
                        fail = Some(format!("id {id} at {p:?} has {nb} links"));
                    }
                    if rng.chance(pall) {
                        let low = self.maxlev.load(SeqCst);
                        let now = ix.max_level_obs() as usize;
                        if now < low {
                            fail = Some(format!("maximum level observed {now}, {low} seen before"));
                        }
                        self.maxlev.fetch_max(now, SeqCst);
                        let nbp = ix.nb_point();
                        let st = self.nstarted.load(SeqCst);
                        if nbp < before.len() || nbp > st {
                            fail = Some(format!("{nbp} points reported, {} inserted, {st} started", before.len()));
                        }
                        let _ = ix.dim();
                    }
                });
                if layer.is_none() && visited < before.len() {
                    fail = Some(format!("iteration with accessors visits {visited} points, {} inserted", before.len()));
                }
                self.judged.fetch_add(1, SeqCst);
                match fail {
                    Some(m) => Err(m),
                    None => Ok(()),
                }
            }
            8 => {
                let ids = ix.point_ids();
                let after_started: usize = self.nstarted.load(SeqCst);
                let mut seen = HashSet::new();
                for (id, p) in &ids {
                    if !seen.insert(*id) {
                        return Err(format!("iteration during insertions visits id {id} twice"));
                    }
                    match self.by_id.get(id) {
                        Some(i) if self.started[*i].load(SeqCst) => {}
                        _ => return Err(format!("iteration gives id {id} whose insertion has not started")),
                    }
                    let _ = p;
                }
                if ids.len() > after_started {
                    return Err(format!("iteration gives {} points, {after_started} started", ids.len()));
                }
                for i in &before {
                    if !seen.contains(&self.list[*i].1) {
                        return Err(format!("iteration misses id {} inserted before", self.list[*i].1));
                    }
                }
                if let Ok(mut g) = self.pids.lock() {
                    if g.len() < 20000 {
                        g.extend(ids);
                    }
                }
                self.judged.fetch_add(1, SeqCst);
                Ok(())
            }
            _ => {
                let nbp = ix.nb_point();
                let st = self.nstarted.load(SeqCst);
                if nbp < before.len() || nbp > st {
                    return Err(format!("{nbp} points reported, {} inserted, {st} started", before.len()));
                }
                let before = self.done_list();
                let sum: usize = (0..16).map(|l| ix.layer_nb(l)).sum();
                let st = self.nstarted.load(SeqCst);
                if sum < before.len() || sum > st {
                    return Err(format!("{sum} points reported over the layers, {} inserted, {st} started", before.len()));
                }
                let low = self.maxlev.load(SeqCst);
                let now = ix.max_level_obs() as usize;
                if now < low {
                    return Err(format!("maximum level observed {now}, {low} seen before"));
                }
                self.maxlev.fetch_max(now, SeqCst);
                if rng.chance(0.4) {
                    let before = self.done_list();
                    let mut sum = 0;
                    let mut pts = HashSet::new();
                    for l in 0..self.c.p.max_layer.min(16) {
                        for p in ix.layer_points(l) {
                            sum += 1;
                            if !pts.insert(p.id) {
                                return Err(format!("layer iterations give id {} twice", p.id));
                            }
                            match self.by_id.get(&p.id) {
                                Some(i) if self.sp.vbytes(self.list[*i].0) == p.bytes => {}
                                _ => return Err(format!("layer iteration gives another vector for id {}", p.id)),
                            }
                        }
                    }
                    for i in &before {
                        if !pts.contains(&self.list[*i].1) {
                            return Err(format!("layer iterations ({sum} points) miss id {} inserted before", self.list[*i].1));
                        }
                    }
                }
                if rng.chance(0.3) {
                    let before = self.done_list();
                    let f = ix.flat();
                    for i in &before {
                        let id = self.list[*i].1;
                        match f.get(id) {
                            None => return Err(format!("flattening misses id {id} inserted before")),
                            Some(v) => {
                                for x in v {
                                    if !self.by_id.contains_key(&x.id) {
                                        return Err(format!("flattening gives unknown neighbour {}", x.id));
                                    }
                                }
                            }
                        }
                    }
                }
                self.judged.fetch_add(1, SeqCst);
                Ok(())
            }
        }
    }
}

pub fn c07(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let small = kind != "large";
    let w = Want {
        nmin: if small { 2 } else { 200 },
        nmax: match kind {
            "tiny" => 12,
            "small" => 80,
            _ => 1200,
        },
        small,
        distinct_ids: true,
        nq: 8,
        dimmax: 6,
        ..Default::default()
    };
    let mut c = rand_cfg(&mut rng, &w);
    let reps = match kind {
        "tiny" => 6,
        "small" => 2,
        _ => 1,
    };
    c.dim = c.dim.min(8);
    if small {
        c.p.efc = c.n + rng.below(30);
    } else {
        c.p.efc = c.p.efc.min(60);
        c.p.extend = false;
    }
    for rep in 0..reps {
        c.seed = seed ^ (rep << 48);
        c.lev = pick_levels(&mut rng);
        let sp = c.space();
        let ix = c.create(&*sp);
        let list = c.list();
        let n = list.len();
        let run = Run {
            sp: &*sp,
            list: &list,
            by_id: list.iter().enumerate().map(|(k, (_, id))| (*id, k)).collect(),
            started: (0..n).map(|_| AtomicBool::new(false)).collect(),
            done: (0..n).map(|_| AtomicBool::new(false)).collect(),
            ndone: AtomicUsize::new(0),
            nstarted: AtomicUsize::new(0),
            c: &c,
            small,
            fail: std::sync::Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            pids: std::sync::Mutex::new(vec![]),
            judged: AtomicUsize::new(0),
            maxlev: AtomicUsize::new(0),
        };
        inject(c.seed, disturb(&mut rng));
        let writers = rng.range(1, 4);
        let readers = rng.range(1, 4);
        let ixr: &dyn Index = &*ix;
        let runr = &run;
        let left = AtomicUsize::new(writers);
        let leftr = &left;
        std::thread::scope(|s| {
            for wn in 0..writers {
                let part: Vec<usize> = (0..n).skip(wn).step_by(writers).collect();
                let mut r = Rng::new(c.seed ^ (77 + wn as u64));
                s.spawn(move || {
                    struct Fin<'a>(&'a AtomicUsize);
                    impl Drop for Fin<'_> {
                        fn drop(&mut self) {
                            self.0.fetch_sub(1, SeqCst);
                        }
                    }
                    let _f = Fin(leftr);
                    let mode = r.below(4);
                    let mut at = 0;
                    while at < part.len() {
                        let e = if mode == 3 { (at + 1 + r.below(12)).min(part.len()) } else { at + 1 };
                        if mode == 3 {
                            runr.insert_many(ixr, &part[at..e], r.chance(0.5));
                        } else {
                            runr.insert_one(ixr, part[at], mode == 1);
                        }
                        at = e;
                        // read your writes
                        if r.chance(if small { 0.3 } else { 0.02 }) {
                            if let Err(m) = runr.read_op(ixr, &mut r) {
                                runr.report(m);
                                return;
                            }
                        }
                    }
                });
            }
            for rn in 0..readers {
                let mut r = Rng::new(c.seed ^ (1077 + rn as u64));
                s.spawn(move || {
                    let mut k = 0;
                    while (leftr.load(SeqCst) > 0 || k < 2) && !runr.stop.load(SeqCst) {
                        k += 1;
                        if let Err(m) = runr.read_op(ixr, &mut r) {
                            runr.report(m);
                            return;
                        }
                    }
                });
            }
        });
        cx.schedule();
        inject(seed, Inj::Off);
        let fails = run.fail.lock().unwrap();
        if let Some(m) = fails.first() {
            viol!("{m} ({} writers, {} readers) {}", writers, readers, c.text());
        }
        cx.events += run.judged.load(SeqCst) as u64;
        // position ids seen during the run are those of the end
        let t: HashMap<usize, Pid> = ix.point_ids().into_iter().collect();
        for (id, p) in run.pids.lock().unwrap().iter() {
            must!(t.get(id) == Some(p), "id {id} was given with position {p:?} during insertions, it is at {:?}", t.get(id));
        }
        content(&*sp, &*ix, &list)?;
        cx.key(c.key() ^ mix(rep));
        cx.count("threads", (writers + readers) as u64);
        cx.sample(format!("{writers} writers {readers} readers {}", c.text()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

/// many small indexes, on each all threads insert at the same instant
pub fn bursts(seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let threads = rng.range(2, 8);
    let each = rng.range(1, 3);
    let pre = rng.below(3);
    let mut c = rand_cfg(&mut rng, &Want { distinct_ids: true, nq: 0, dimmax: 3, ..Default::default() });
    c.n = pre + threads * each;
    c.dim = c.dim.clamp(1, 4);
    c.p.m = *rng.pick(&[2, 2, 3, 4, 8]);
    c.p.efc = rng.range(1, 30);
    c.lev = match rng.below(5) {
        0 => Lev::Natural,
        1 => Lev::Half,
        2 => Lev::Up(rng.range(1, 3)),
        3 => Lev::Uniform(0, rng.range(1, 4)),
        _ => Lev::Uniform(0, 15),
    };
    let sp = c.space();
    let list = c.list();
    let rounds = 60;
    let ixs: Vec<Box<dyn Index>> = (0..rounds).map(|_| c.create(&*sp)).collect();
    levels(seed, c.lev);
    for ix in &ixs {
        for (i, id) in &list[..pre] {
            ix.insert(*i, *id);
        }
    }
    let inj = match rng.below(6) {
        0 => Inj::Off,
        1 => Inj::Record,
        2 => Inj::Random(0.1),
        3 => Inj::Rendezvous(8, threads as u32, 0.),
        4 => Inj::Rendezvous(6, threads as u32, 0.),
        _ => Inj::Rendezvous(rng.range(1, 8) as u32, threads as u32, 0.02),
    };
    inject(seed, inj);
    let waiting = AtomicUsize::new(0);
    let decreased = AtomicBool::new(false);
    let readers = rng.below(4);
    std::thread::scope(|s| {
        // the maximum level observed never decreases
        for _ in 0..readers {
            let (ixs, waiting, decreased) = (&ixs, &waiting, &decreased);
            s.spawn(move || loop {
                let r = (waiting.load(SeqCst) / threads).saturating_sub(1);
                let mut last = 0;
                for _ in 0..20 {
                    let l = ixs[r].max_level_obs();
                    if l < last {
                        decreased.store(true, SeqCst);
                    }
                    last = l;
                }
                if waiting.load(SeqCst) >= rounds * threads {
                    break;
                }
                std::thread::yield_now();
            });
        }
        for t in 0..threads {
            let (ixs, list, waiting) = (&ixs, &list, &waiting);
            s.spawn(move || {
                for (r, ix) in ixs.iter().enumerate() {
                    // all start together
                    waiting.fetch_add(1, SeqCst);
                    let mut k = 0u32;
                    while waiting.load(SeqCst) < (r + 1) * threads {
                        k += 1;
                        if k % 64 == 0 {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    for e in 0..each {
                        let (i, id) = list[pre + t * each + e];
                        if r % 2 == 0 {
                            ix.insert(i, id);
                        } else {
                            ix.insert_slice(i, id);
                        }
                    }
                    if t == 0 {
                        rearm();
                    }
                }
            });
        }
    });
    inject(seed, Inj::Off);
    must!(!decreased.load(SeqCst), "the maximum level observed decreased during insertions {}", c.text());
    for ix in &ixs {
        let g = ix.graph();
        must!(g.len() == list.len(), "{} points in the graph of {} after simultaneous insertions", g.len(), list.len());
        graph(Some(&*sp), &**ix, &g).map_err(|e| tag(e, &c.text()))?;
        content(&*sp, &**ix, &list)?;
        cx.events += g.len() as u64;
    }
    cx.count("simultaneous_rounds", rounds as u64);
    cx.key(c.key());
    cx.sample(format!("{threads} threads {each} points each {pre} before {inj:?} {}", c.text()));
    Ok(())
}

pub fn c08(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    if kind == "race" {
        return bursts(seed, cx);
    }
    let mut rng = Rng::new(seed);
    let mut c = rand_cfg(
        &mut rng,
        &Want {
            nmin: 1,
            nmax: match kind {
                "large" => 4000,
                "conc" => 60,
                _ => 400,
            },
            distinct_ids: true,
            nq: 0,
            dimmax: if kind == "large" { 6 } else { 16 },
            ..Default::default()
        },
    );
    if kind == "large" {
        c.n = c.n.max(1000);
        c.p.efc = c.p.efc.min(50);
        c.p.extend = false;
    }
    if kind == "huge" {
        hugely(&mut rng, &mut c);
    }
    let reps = if kind == "conc" { 6 } else { 1 };
    for r in 0..reps {
        let mut c = c.clone();
        c.seed = seed ^ (r << 44);
        if kind == "conc" {
            c.method = *rng.pick(&[2, 3, 7, 7, 8]);
            c.lev = pick_levels(&mut rng);
            c.n = c.n.max(2);
        }
        let sp = c.space();
        let mut ix = c.create(&*sp);
        let list = c.list();
        inject(c.seed, if kind == "huge" { Inj::Off } else { disturb(&mut rng) });
        // several quiescent points
        let stages = if kind == "large" || kind == "huge" { 1 } else { rng.range(1, 3) };
        let mut done = 0;
        for s in 0..stages {
            let e = if s + 1 == stages { list.len() } else { rng.range(done, list.len()) };
            insert_all(&mut ix, &list[done..e], c.method, c.threads, c.seed ^ s as u64);
            done = e;
            let g = ix.graph();
            must!(g.len() == done, "{} points in the graph of {done}", g.len());
            let f = graph(Some(&*sp), &*ix, &g).map_err(|e| tag(e, &c.text()))?;
            cx.count("links", f.links);
            cx.count("full_lists", f.full_lists);
            cx.events += f.links;
        }
        cx.schedule();
        inject(c.seed, Inj::Off);
        let g = ix.graph();
        flat(&g, &*ix.flat(), "flattened view")?;
        // no level reaches the number of layers: also seen through layers iteration
        let ml = g.iter().map(|p| p.pid.0 as usize).max().unwrap_or(0);
        for l in 0..16 {
            if l > ml {
                must!(ix.layer_nb(l) == 0, "{} points in layer {l}, above the maximum level {ml}", ix.layer_nb(l));
            }
        }
        if c.p.max_layer >= 16 && c.n > 0 {
            let d = cx.fresh();
            match ix.dump(&d, "g") {
                Err(e) => inc!("dump {e}"),
                Ok(b) => {
                    let p = match crate::dumpfile::parse(&d, &b) {
                        Ok(p) => p,
                        Err(e) => viol!("the dump cannot be read back by the independent reader: {e}"),
                    };
                    same_graph(&g, &p.pts, true, "dump file")?;
                    must!(p.h.nb_point == g.len(), "dump says {} points of {}", p.h.nb_point, g.len());
                    cx.events += p.pts.len() as u64;
                }
            }
            let _ = std::fs::remove_dir_all(&d);
        }
        if c.n > 1 {
            cx.key(c.key() ^ mix(r));
        }
        cx.sample(c.text());
    }
    Ok(())
}
