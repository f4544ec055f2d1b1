//! C24 sizes announced and asked for are only hints; C25 panics of user code.

use crate::cfg::*;
use crate::core::*;
use crate::ctl::*;
use crate::ctx::Ctx;
use crate::dumpfile;
use crate::mem;
use crate::oracle::*;
use crate::pa::{pick_ef, pick_k, tag, HUGE};
use crate::pb::*;
use crate::rng::*;
use crate::{inc, must, viol};
use hnsw_rs::prelude::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- C24

fn links(g: &[GPt]) -> usize {
    g.iter().map(|p| p.nb.iter().map(|l| l.len()).sum::<usize>()).sum()
}

pub fn c24(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    match kind {
        "create" => {
            let mut c = rand_cfg(&mut rng, &Want { nmin: 0, nmax: 20, nq: 4, ..Default::default() });
            c.method = 0;
            for _ in 0..6 {
                c.p.m = *rng.pick(&[2, 3, 8, 16, 32, 64, 128, 255, 256]);
                c.p.max_layer = *rng.pick(&[1, 2, 4, 8, 16, 16, 16, 40]);
                let e = rng.below(9);
                c.p.max_elem = rng.below(9) + 10usize.pow(e as u32);
                let sp = c.space();
                let a = mem::live().0;
                let ix = c.create(&*sp);
                let got = mem::live().0 - a;
                let most = 16 * c.p.max_elem as i64 + 50_000;
                must!(
                    got <= most,
                    "creating an index announced for {} elements (M {}, {} layers) reserves {got} bytes, more than {most}",
                    c.p.max_elem,
                    c.p.m,
                    c.p.max_layer
                );
                cx.count("reserved_per_1000_announced", (got.max(0) as u64 * 1000) / (c.p.max_elem as u64 + 1000));
                let mut ix = ix;
                let list = c.list();
                insert_all(&mut ix, &list, c.method, 1, c.seed);
                content(&*sp, &*ix, &list)?;
                drop(ix);
                let left = mem::live().0 - a;
                must!(left < 50_000, "{left} bytes remain after the drop of an index announced for {} elements", c.p.max_elem);
                cx.events += 2;
                cx.key(hash_words(&[c.p.m as u64, c.p.max_layer as u64, e as u64]));
            }
            cx.sample(c.text());
            Ok(())
        }
        "hint" => {
            let mut c = rand_cfg(&mut rng, &Want { nmin: 1, nmax: 200, nq: 8, serial: true, ..Default::default() });
            // sets of candidates are visited in random order when they are extended
            c.p.extend = false;
            let sp = c.space();
            let (ix, list) = c.build(&*sp);
            let g = ix.graph();
            let p = probe(&mut rng, &c, &*ix, &list, 12);
            for e in [0, 1, c.n / 2, c.n, 100 * c.n, 3_000_000] {
                let mut d = c.clone();
                d.p.max_elem = e;
                let (ix2, _) = d.build(&*sp);
                let w = format!("announced for {e} elements instead of {}, {} inserted", c.p.max_elem, c.n);
                must!(ix2.graph() == g, "an index {w} has another graph");
                content(&*sp, &*ix2, &list).map_err(|x| tag(x, &w))?;
                same_answers(&p, &*ix2, true, &w, cx)?;
                cx.events += g.len() as u64;
            }
            if c.n > 1 {
                cx.key(c.key());
            }
            cx.sample(c.text());
            Ok(())
        }
        _ => {
            // memory in use grows with what is stored, that of a search with what it visits
            let mut c = rand_cfg(&mut rng, &Want { nmin: 1, nmax: 600, nq: 10, serial: true, dumpable: true, ..Default::default() });
            c.p.max_elem = c.p.max_elem.min(20_000);
            if c.n > 150 {
                c.p.efc = c.p.efc.min(60);
            }
            if rng.chance(0.3) {
                longer(&mut rng, &mut c);
                c.n = rng.range(5, 40);
            }
            let sp = c.space();
            // (a small String has 24 bytes and a block of its own)
            let per = if sp.owned() { 12 } else { 1 };
            let vb: i64 = (0..c.n).map(|i| per * sp.vbytes(i).len() as i64).sum();
            let n = c.n as i64;
            let a = mem::live().0;
            let (ix, list) = c.build(&*sp);
            let got = mem::live().0 - a - 16 * list.len() as i64;
            let l = links(&ix.graph()) as i64;
            let most = |vec: i64, hint: i64| 3 * vec / 2 + 2000 * n + 200 * l + 16 * hint + 100_000;
            let m = most(vb, c.p.max_elem as i64);
            must!(got <= m, "an index of {n} points ({vb} bytes of vectors, {l} links) uses {got} bytes, more than {m}: {}", c.text());
            cx.events += 1;
            cx.count("bytes_per_point_sum", (got.max(0) / n) as u64);
            for r in 0..8 {
                let q = c.n + rng.below(c.nq);
                let k = if r % 2 == 0 { *rng.pick(&HUGE) } else { pick_k(&mut rng, c.n) };
                let ef = if r % 4 > 1 { *rng.pick(&HUGE) } else { pick_ef(&mut rng, c.n, k) };
                let b = mem::watch();
                let x = ix.search(q, k, ef);
                let used = mem::peak() - b;
                let m = 800 * n + 100_000;
                must!(used <= m, "a search with k {k} ef {ef} over {n} points uses {used} bytes, more than {m}");
                must!(!x.is_empty() || k == 0, "search with k {k} ef {ef} over {n} points is empty");
                cx.events += 1;
                cx.count("search_peaks", 1);
            }
            let d = cx.fresh();
            let base = dump_ok(&*ix, &d, "m")?;
            for how in [How::Normal, How::Mmap(0), How::WithDist] {
                if matches!(how, How::Mmap(_)) && (!sp.has_default() || sp.align() > 4 || sp.owned()) {
                    continue;
                }
                let a = mem::live().0;
                let r = reload_ok(&*sp, &d, &base, how)?;
                let got = mem::live().0 - a;
                // a reloader used again may keep the copies its first map has made of vectors that are not aligned
                let kept = if sp.align() > 4 { vb } else { 0 };
                let m = most(if matches!(how, How::Mmap(_)) { 0 } else { vb + kept }, 0);
                must!(got <= m, "reload {how:?} of {n} points ({vb} bytes of vectors, {l} links) uses {got} bytes, more than {m}: {}", c.text());
                must!(r.nb_point() == c.n, "reload {how:?}: {} points", r.nb_point());
                cx.events += 1;
            }
            let _ = dumpfile::paths(&d, &base);
            if c.n > 1 {
                cx.key(c.key());
            }
            cx.sample(c.text());
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C25

struct Boom;
/// evaluations left before a panic, of all threads; negative: none
static FUSE: AtomicI64 = AtomicI64::new(i64::MIN);
static EVALS: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    /// the same for this thread
    static MINE: Cell<i64> = const { Cell::new(i64::MIN) };
}

#[derive(Clone, Copy, Default)]
pub struct Bomb;
impl Distance<f32> for Bomb {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        EVALS.fetch_add(1, Relaxed);
        if FUSE.load(Relaxed) > 0 && FUSE.fetch_sub(1, Relaxed) == 1 {
            std::panic::panic_any(Boom);
        }
        let m = MINE.get();
        if m > 0 {
            MINE.set(m - 1);
            if m == 1 {
                std::panic::panic_any(Boom);
            }
        }
        a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f32>().sqrt()
    }
}

type H = Hnsw<'static, f32, Bomb>;
type Out<X> = Result<X, String>;

/// true when it panicked as asked
fn boom<X>(f: impl FnOnce() -> X) -> Out<Option<X>> {
    let r = catch_unwind(AssertUnwindSafe(f));
    FUSE.store(i64::MIN, SeqCst);
    MINE.set(i64::MIN);
    match r {
        Ok(x) => Ok(Some(x)),
        Err(e) if e.is::<Boom>() => Ok(None),
        Err(e) => Err(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())),
    }
}

fn l2(a: &[f32], b: &[f32]) -> f32 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f32>().sqrt()
}

fn plain(a: &[Neighbour]) -> Vec<(usize, u8, i32, u32)> {
    a.iter().map(|n| (n.d_id, n.p_id.0, n.p_id.1, n.distance.to_bits())).collect()
}

/// links of all points that iteration shows
fn picture(h: &H) -> HashMap<(u8, i32), (usize, Vec<Vec<(usize, u8, i32, u32)>>)> {
    h.get_point_indexation()
        .into_iter()
        .map(|p| {
            let i = p.get_point_id();
            ((i.0, i.1), (p.get_origin_id(), p.get_neighborhood_id().iter().map(|l| plain(l)).collect()))
        })
        .collect()
}

pub struct Known<'a> {
    vecs: &'a [Vec<f32>],
    /// vectors whose insertion returned
    done: Vec<usize>,
    /// vectors whose insertion panicked
    half: Vec<usize>,
}

/// ids are numbers of vectors
fn checked(h: &H, kn: &Known, q: &[f32], k: usize, ef: usize, exact: bool, cx: &mut Ctx) -> R<()> {
    let a = match boom(|| h.search(q, k, ef)) {
        Ok(Some(a)) => a,
        Ok(None) => inc!("bomb left armed"),
        Err(m) => viol!("a search panics after a panic of user code has been caught: {m}"),
    };
    must!(a.len() <= k, "{} answers for k {k}", a.len());
    let mut seen = std::collections::HashSet::new();
    let mut last = 0f32;
    for n in &a {
        must!(kn.done.contains(&n.d_id) || kn.half.contains(&n.d_id), "answer gives id {} that was not inserted", n.d_id);
        must!(seen.insert(n.d_id), "id {} twice in an answer", n.d_id);
        let d = l2(q, &kn.vecs[n.d_id]);
        must!(near(d, n.distance), "distance {} given for id {}, {d} expected", n.distance, n.d_id);
        must!(n.distance >= last, "answer not sorted");
        last = n.distance;
        cx.events += 1;
    }
    if exact {
        // points whose insertion panicked may be found or not
        let mut bf: Vec<f32> = kn.done.iter().map(|i| l2(q, &kn.vecs[*i])).collect();
        bf.sort_by(|a, b| a.total_cmp(b));
        let want = k.min(bf.len());
        must!(a.len() >= want, "{} answers instead of {want} after a panic of user code (k {k} ef {ef}, {} points, M {})", a.len(), bf.len(), h.get_max_nb_connection());
        for i in 0..want {
            must!(a[i].distance <= bf[i] || near(a[i].distance, bf[i]), "answer {i} at {} after a panic of user code, a point is at {}", a[i].distance, bf[i]);
        }
    }
    Ok(())
}

pub fn c25(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    FUSE.store(i64::MIN, SeqCst);
    let small = rng.chance(0.5);
    let total = if kind == "conc" { rng.range(20, 60) } else { rng.range(6, 70) };
    let m = if small { total + rng.below(20) } else { *rng.pick(&[2, 4, 8, 16]) };
    let efc = if small { total + 5 } else { rng.range(3, 60) };
    let dim = rng.range(1, 6);
    let vecs: Vec<Vec<f32>> = (0..total + 30).map(|_| (0..dim).map(|_| rng.f() as f32).collect()).collect();
    let lev = pick_levels(&mut rng);
    levels(seed, lev);
    let mut h: H = Hnsw::new(m, 100, 16, efc, Bomb);
    h.set_keeping_pruned(rng.chance(0.3));
    h.set_extend_candidates(rng.chance(0.3));
    let txt = format!("{total} vectors of {dim}, M {m} width {efc} levels {lev:?}");
    let mut kn = Known { vecs: &vecs, done: vec![], half: vec![] };
    let first = rng.range(1, total / 2 + 1);
    if rng.chance(0.5) {
        (0..first).for_each(|i| h.insert((&vecs[i], i)));
    } else {
        let l: Vec<(&Vec<f32>, usize)> = (0..first).map(|i| (&vecs[i], i)).collect();
        h.parallel_insert(&l);
    }
    kn.done.extend(0..first);
    let mut next = first;
    let mut panics = 0u64;
    if kind == "conc" {
        // several threads, some of whose operations panic
        let at = AtomicUsize::new(first);
        let t = rng.range(2, 6);
        inject(seed, Inj::Off);
        let res: Vec<Out<(Vec<usize>, Vec<usize>, u64)>> = std::thread::scope(|s| {
            let js: Vec<_> = (0..t)
                .map(|k| {
                    let (h, at, vecs) = (&h, &at, &vecs);
                    let mut rng = Rng::new(seed ^ mix(k as u64 + 1));
                    s.spawn(move || {
                        let (mut done, mut half, mut p) = (vec![], vec![], 0);
                        loop {
                            let i = at.fetch_add(1, SeqCst);
                            if i >= total {
                                return Ok((done, half, p));
                            }
                            let fuse = if rng.chance(0.3) { rng.range(1, 40) as i64 } else { i64::MIN };
                            MINE.set(fuse);
                            match boom(|| h.insert((&vecs[i], i)))? {
                                Some(()) => done.push(i),
                                None => {
                                    half.push(i);
                                    p += 1
                                }
                            }
                            MINE.set(if rng.chance(0.5) { rng.range(1, 30) as i64 } else { i64::MIN });
                            if boom(|| h.search(&vecs[total + rng.below(30)], 5, 20))?.is_none() {
                                p += 1;
                            }
                            let c = AtomicUsize::new(rng.below(10));
                            let f = |_: &usize| {
                                if c.fetch_add(1, Relaxed) == 10 {
                                    std::panic::panic_any(Boom)
                                }
                                true
                            };
                            if boom(|| h.search_filter(&vecs[total + rng.below(30)], 5, 20, Some(&f)))?.is_none() {
                                p += 1;
                            }
                        }
                    })
                })
                .collect();
            js.into_iter().map(|j| j.join().unwrap_or_else(|_| Err("thread lost".into()))).collect()
        });
        for r in res {
            match r {
                Ok((d, hf, p)) => {
                    kn.done.extend(d);
                    kn.half.extend(hf);
                    panics += p;
                }
                Err(e) => viol!("an operation panics after a panic of user code in another one: {e} ({txt})"),
            }
        }
        next = total;
    } else {
        for step in 0..rng.range(6, 24) {
            let q = &vecs[total + rng.below(30)];
            let k = rng.range(1, 12);
            let ef = if small { total + 1 } else { rng.range(1, 40) };
            let before = picture(&h);
            let nb = h.get_nb_point();
            match rng.below(5) {
                0 | 1 => {
                    // a search or a filtered search, or a batch
                    let e0 = EVALS.load(SeqCst);
                    let want = plain(&h.search(q, k, ef));
                    let ev = EVALS.load(SeqCst) - e0;
                    let batch = rng.chance(0.4);
                    FUSE.store(rng.range(1, ev) as i64, SeqCst);
                    let r = if batch {
                        let qs: Vec<Vec<f32>> = (0..rng.range(1, 9)).map(|_| q.clone()).collect();
                        boom(|| h.parallel_search(&qs, k, ef).len())
                    } else {
                        boom(|| h.search(q, k, ef).len())
                    };
                    match r {
                        Ok(None) => panics += 1,
                        Ok(Some(_)) => viol!("the panic of a metric in a search does not reach the caller (batch {batch})"),
                        Err(e) => viol!("a search whose metric panics ends with another panic: {e}"),
                    }
                    let after = match boom(|| plain(&h.search(q, k, ef))) {
                        Ok(Some(a)) => a,
                        _ => viol!("a search panics after a panic of the metric in another one ({txt})"),
                    };
                    must!(after == want, "a search answers differently after a panic of the metric in another one: {after:?} / {want:?} ({txt})");
                }
                2 => {
                    let calls = AtomicUsize::new(0);
                    let limit = AtomicUsize::new(usize::MAX);
                    let f = |id: &usize| {
                        if calls.fetch_add(1, SeqCst) + 1 == limit.load(SeqCst) {
                            std::panic::panic_any(Boom)
                        }
                        id % 3 != 0
                    };
                    let want = plain(&h.search_filter(q, k, ef, Some(&f)));
                    let n = calls.swap(0, SeqCst);
                    if n > 0 {
                        limit.store(rng.range(1, n), SeqCst);
                        match boom(|| h.search_filter(q, k, ef, Some(&f)).len()) {
                            Ok(None) => panics += 1,
                            _ => viol!("the panic of a filter does not reach the caller"),
                        }
                        limit.store(usize::MAX, SeqCst);
                        let after = match boom(|| plain(&h.search_filter(q, k, ef, Some(&f)))) {
                            Ok(Some(a)) => a,
                            _ => viol!("a filtered search panics after a panic of the filter in another one ({txt})"),
                        };
                        must!(after == want, "a filtered search answers differently after a panic of the filter ({txt})");
                    }
                }
                3 if next < total => {
                    FUSE.store(rng.range(1, 60) as i64, SeqCst);
                    match boom(|| h.insert((&vecs[next], next))) {
                        Ok(Some(())) => kn.done.push(next),
                        Ok(None) => {
                            panics += 1;
                            kn.half.push(next)
                        }
                        Err(e) => viol!("an insertion panics after a panic of user code: {e} ({txt})"),
                    }
                    next += 1;
                }
                _ if next < total => {
                    let e = (next + rng.range(1, 8)).min(total);
                    let l: Vec<(&Vec<f32>, usize)> = (next..e).map(|i| (&vecs[i], i)).collect();
                    if rng.chance(0.5) {
                        FUSE.store(rng.range(1, 200) as i64, SeqCst);
                    }
                    match boom(|| h.parallel_insert(&l)) {
                        Ok(Some(())) => kn.done.extend(next..e),
                        Ok(None) => {
                            // which ones were not inserted is not told
                            panics += 1;
                            kn.half.extend(next..e)
                        }
                        Err(e) => viol!("a parallel insertion panics after a panic of user code: {e} ({txt})"),
                    }
                    next = e;
                }
                _ => {}
            }
            if h.get_nb_point() == nb {
                must!(picture(&h) == before, "the graph changes by an operation that inserts nothing (step {step}, {txt})");
            }
            checked(&h, &kn, q, k, ef, small && ef >= total, cx)?;
            cx.events += 1;
        }
    }
    // the index goes on, and all points whose insertion returned are there
    let free = levels_free;
    free();
    let n = kn.done.len() + kn.half.len();
    must!(h.get_nb_point() >= kn.done.len() && h.get_nb_point() <= n, "{} points reported, {} inserted and {} tried ({txt})", h.get_nb_point(), kn.done.len(), kn.half.len());
    let mut met: HashMap<usize, usize> = HashMap::new();
    for p in h.get_point_indexation().into_iter() {
        let id = p.get_origin_id();
        must!(id < n.max(next) && p.get_v() == &vecs[id][..], "point {id} does not hold its vector after panics ({txt})");
        *met.entry(id).or_default() += 1;
        cx.events += 1;
    }
    for id in &kn.done {
        must!(met.get(id) == Some(&1), "point {id} is iterated {:?} times ({txt})", met.get(id));
    }
    must!(met.values().all(|c| *c == 1), "a point is iterated several times ({txt})");
    for i in 0..10 {
        checked(&h, &kn, &vecs[total + i], 1 + i, if small { total + 1 } else { 30 }, small, cx)?;
    }
    for i in next..total {
        h.insert((&vecs[i], i));
        kn.done.push(i);
    }
    for i in 0..10 {
        checked(&h, &kn, &vecs[total + i], 1 + i, if small { total + 1 } else { 30 }, small, cx)?;
    }
    cx.count("panics_caught", panics);
    cx.schedule();
    // dump and reload
    if !kn.done.is_empty() {
        let d = cx.fresh();
        match boom(|| h.file_dump(&d, "p")) {
            Ok(Some(Ok(b))) => {
                let mut io = HnswIo::new(&d, &b);
                let r = io.load_hnsw::<f32, Bomb>();
                match r {
                    Ok(g) => {
                        must!(g.get_nb_point() == h.get_nb_point(), "{} points after reload instead of {}", g.get_nb_point(), h.get_nb_point());
                        for i in 0..8 {
                            let q = &vecs[total + i];
                            must!(plain(&g.search(q, 5, 30)) == plain(&h.search(q, 5, 30)), "a search answers differently after dump and reload ({txt})");
                        }
                    }
                    Err(e) => viol!("the dump of an index one of whose operations panicked is refused: {e} ({txt})"),
                };
            }
            Ok(Some(Err(e))) => viol!("the dump of an index one of whose operations panicked fails: {e} ({txt})"),
            _ => viol!("a dump panics after a panic of user code ({txt})"),
        }
    }
    drop(h);
    if panics > 0 {
        cx.key(hash_words(&[seed, total as u64, m as u64]));
    }
    cx.sample(format!("{panics} panics, {txt}"));
    Ok(())
}

/// life of an index in which the metric panics now and then (C18)
pub fn bomb_life(seed: u64) -> R<u64> {
    let mut rng = Rng::new(seed);
    let n = rng.range(4, 60);
    let dim = rng.range(1, 20);
    let vecs: Vec<Vec<f32>> = (0..n).map(|_| (0..dim).map(|_| rng.f() as f32).collect()).collect();
    levels(seed, *rng.pick(&[Lev::Half, Lev::Uniform(0, 15), Lev::Up(3)]));
    let mut h: H = Hnsw::new(rng.range(2, 10), 100, 16, rng.range(3, 30), Bomb);
    h.set_keeping_pruned(rng.chance(0.3));
    h.set_extend_candidates(rng.chance(0.3));
    let often = rng.f();
    let mut panics = 0;
    for (i, v) in vecs.iter().enumerate() {
        if rng.chance(often) {
            MINE.set(rng.range(1, 60) as i64);
        }
        let r = boom(|| h.insert((v, i)));
        match r {
            Ok(Some(())) => {}
            Ok(None) => panics += 1,
            Err(m) => viol!("an insertion panics after a panic of user code has been caught: {m}"),
        }
        if rng.chance(0.2) {
            MINE.set(rng.range(1, 20) as i64);
            let _ = boom(|| h.search(v, 3, 10));
        }
    }
    drop(h);
    Ok(panics)
}
