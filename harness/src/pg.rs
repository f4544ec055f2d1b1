//! C26 what a search evaluates, and how much; the candidates of an insertion (C22).
//! The monitor is the metric: it notes every pair whose distance is asked for.

use crate::ctl::*;
use crate::ctx::Ctx;
use crate::oracle::*;
use crate::rng::*;
use crate::{must, viol};
use hnsw_rs::prelude::*;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

/// components carry the number of their vector
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
#[repr(C)]
pub struct Tag {
    x: f32,
    of: u32,
}

thread_local! {
    static LOG: RefCell<Option<Vec<(u32, u32)>>> = const { RefCell::new(None) };
    static SHARD: Cell<usize> = const { Cell::new(usize::MAX) };
}
static NEXT: AtomicUsize = AtomicUsize::new(0);
#[repr(align(128))]
struct Slot(AtomicU64);
static COUNT: [Slot; 64] = [const { Slot(AtomicU64::new(0)) }; 64];

fn plain(a: &[Tag], b: &[Tag]) -> f32 {
    a.iter().zip(b).map(|(p, q)| (p.x - q.x) * (p.x - q.x)).sum::<f32>().sqrt()
}

/// Euclidean, watched
#[derive(Clone, Copy, Default)]
pub struct Watch;
impl Distance<Tag> for Watch {
    fn eval(&self, a: &[Tag], b: &[Tag]) -> f32 {
        let s = SHARD.with(|s| {
            if s.get() == usize::MAX {
                s.set(NEXT.fetch_add(1, Relaxed) % 64)
            }
            s.get()
        });
        COUNT[s].0.fetch_add(1, Relaxed);
        LOG.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push((a[0].of, b[0].of))
            }
        });
        plain(a, b)
    }
}

fn counted() -> u64 {
    COUNT.iter().map(|c| c.0.load(Relaxed)).sum()
}

/// what f evaluates in this thread
fn watched<X>(f: impl FnOnce() -> X) -> (X, Vec<(u32, u32)>) {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
    let x = f();
    (x, LOG.with(|l| l.borrow_mut().take().unwrap_or_default()))
}

fn vectors(rng: &mut Rng, n: usize, dim: usize, first: usize, clusters: bool) -> Vec<Vec<Tag>> {
    let cen: Vec<Vec<f64>> = (0..4).map(|_| (0..dim).map(|_| rng.f()).collect()).collect();
    (0..n)
        .map(|i| {
            let c = rng.below(4);
            (0..dim)
                .map(|j| Tag {
                    x: if clusters { cen[c][j] + 0.05 * rng.f() } else { rng.f() } as f32,
                    of: (first + i) as u32,
                })
                .collect()
        })
        .collect()
}

type H = Hnsw<'static, Tag, Watch>;

/// numbers of the stored vectors evaluated against vector q
fn against(log: &[(u32, u32)], q: u32) -> Vec<u32> {
    log.iter().filter(|(a, b)| (*a == q) != (*b == q)).map(|(a, b)| if *a == q { *b } else { *a }).collect()
}

fn seen(seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let n = match rng.below(4) {
        0 => rng.range(1, 12),
        1 | 2 => rng.range(10, 120),
        _ => rng.range(100, 400),
    };
    let dim = rng.range(1, 8);
    let m = *rng.pick(&[2, 3, 4, 6, 8, 12, 16, 24]);
    let efc = *rng.pick(&[1, 4, 10, 20, 50, 100]);
    let lev = if rng.chance(0.4) { Lev::All(0) } else { pick_levels(&mut rng) };
    let clusters = rng.chance(0.3);
    let vecs = vectors(&mut rng, n, dim, 0, clusters);
    let nq = 10;
    let qs = vectors(&mut rng, nq, dim, n, clusters);
    levels(seed, lev);
    let mut h: H = Hnsw::new(m, n, 16, efc, Watch);
    let (ext, keep) = (rng.chance(0.2), rng.chance(0.2));
    h.set_extend_candidates(ext);
    h.set_keeping_pruned(keep);
    if rng.chance(0.8) {
        vecs.iter().enumerate().for_each(|(i, v)| h.insert((v, i)));
    } else {
        let l: Vec<(&Vec<Tag>, usize)> = vecs.iter().zip(0..n).collect();
        h.parallel_insert(&l);
    }
    // the index, and sometimes its reload
    let d = cx.fresh();
    let mut io;
    let mut again = None;
    if rng.chance(0.4) {
        if let Err(e) = h.file_dump(&d, "w") {
            viol!("dump fails: {e}");
        }
        io = HnswIo::new(&d, "w");
        if rng.chance(0.5) {
            io.set_options(ReloadOptions::new(true).set_mmap_threshold(rng.below(n + 1)));
        }
        match io.load_hnsw::<Tag, Watch>() {
            Ok(r) => again = Some(r),
            Err(e) => viol!("reload fails: {e}"),
        }
    }
    let txt = format!("{n} vectors of {dim}, M {m} width {efc} levels {lev:?} extend {ext} keep {keep} reloaded {}", again.is_some());
    let top = h.get_max_level_observed() as usize;
    let flat = h.get_point_indexation().get_layer_nb_point(0) == n;
    let mut one = |h: &Hnsw<'_, Tag, Watch>, cx: &mut Ctx| -> R<Vec<Vec<(u32, u32)>>> {
        let mut logs = vec![];
        for (j, q) in qs.iter().enumerate() {
            let mut r = Rng::new(seed ^ mix(j as u64));
            let k = r.range(1, 20);
            let ef = *r.pick(&[1, 5, 10, 20, 40, 80]);
            let filt = match j % 5 {
                3 => Some(2 + r.below(3)),
                _ => None,
            };
            let (a, log) = watched(|| match filt {
                None => h.search(q, k, ef),
                Some(z) => {
                    let f = move |id: &usize| id % z != 0;
                    h.search_filter(q, k, ef, Some(&f))
                }
            });
            let e = against(&log, (n + j) as u32);
            must!(e.len() == log.len(), "a search evaluates distances between stored points: {txt}");
            let mut times: HashMap<u32, usize> = HashMap::new();
            e.iter().for_each(|i| *times.entry(*i).or_default() += 1);
            for (i, t) in &times {
                must!(
                    *t <= top + 2,
                    "a search (k {k} ef {ef}) evaluates vector {i} {t} times, there are {} layers: {txt}",
                    top + 1
                );
            }
            let mut ds: Vec<f32> = times
                .keys()
                .filter(|i| filt.is_none_or(|z| **i as usize % z != 0))
                .map(|i| plain(q, &vecs[*i as usize]))
                .collect();
            ds.sort_by(|a, b| a.total_cmp(b));
            for x in &a {
                must!(times.contains_key(&(x.d_id as u32)), "vector {} is answered without an evaluation: {txt}", x.d_id);
            }
            let got: Vec<f32> = a.iter().map(|x| x.distance).collect();
            if filt.is_none() {
                must!(!got.is_empty(), "no answer: {txt}");
                must!(
                    got[0] <= ds[0],
                    "a search (k {k} ef {ef}) evaluates a vector at {} and answers {} first: {txt}",
                    ds[0],
                    got[0]
                );
            }
            // a refused entry point holds the only place of a filtered search of width 1
            if flat && top == 0 && (filt.is_none() || k.max(ef) > 1) {
                ds.truncate(k);
                must!(
                    got == ds,
                    "a search (k {k} ef {ef} filter {filt:?}) does not answer the nearest of the vectors it evaluates: {got:?} instead of {ds:?}: {txt}"
                );
                cx.count("flat_searches", 1);
            }
            cx.events += log.len() as u64;
            cx.count("searches", 1);
            logs.push(log);
        }
        Ok(logs)
    };
    let l0 = one(&h, cx)?;
    if let Some(r) = &again {
        let l1 = one(r, cx)?;
        // ties in lists may be visited in another order
        if l0 != l1 {
            let s = |l: &Vec<(u32, u32)>| l.len();
            let (a, b): (usize, usize) = (l0.iter().map(s).sum(), l1.iter().map(s).sum());
            must!(b <= a + a / 5 + 10, "{a} distances evaluated before a reload, {b} after: {txt}");
        }
        cx.count("reloads", 1);
    }
    if n > 1 {
        cx.key(hash_words(&[n as u64, dim as u64, m as u64, efc as u64, seed]));
    }
    cx.sample(txt);
    Ok(())
}

/// most evaluations per search (width 1, 16, 64) and per insertion: n vectors, M 12, construction width 64
const MOST: [(usize, usize, [f64; 3], f64); 6] = [
    (2, 2000, [95., 120., 200.], 300.),
    (4, 2000, [95., 165., 320.], 420.),
    (8, 2000, [110., 250., 560.], 600.),
    (2, 8000, [110., 135., 215.], 330.),
    (4, 8000, [110., 180., 360.], 485.),
    (8, 8000, [130., 290., 680.], 780.),
];

/// number of distances a search by the book evaluates on the same graph: one step to the best neighbour in each layer
/// from the top, then the search of the given width in the lowest
struct Book {
    links: Vec<Vec<Vec<u32>>>,
    level: Vec<usize>,
}
impl Book {
    fn of(h: &H, n: usize) -> Book {
        let mut b = Book { links: vec![vec![]; n], level: vec![0; n] };
        for p in h.get_point_indexation() {
            b.note(&p);
        }
        b
    }
    fn search(&self, vecs: &[Vec<Tag>], q: &[Tag], entry: u32, ef: usize) -> usize {
        let d = |i: u32| plain(q, &vecs[i as usize]);
        let (mut cur, mut n) = (entry, 1);
        let mut best = d(entry);
        for l in (1..=self.level[entry as usize]).rev() {
            let from = cur;
            for x in self.links[from as usize].get(l).into_iter().flatten() {
                n += 1;
                if d(*x) < best {
                    best = d(*x);
                    cur = *x;
                }
            }
        }
        n + self.layer(vecs, q, &mut cur, ef, 0)
    }
    /// search of a layer from cur, which becomes the nearest
    fn layer(&self, vecs: &[Vec<Tag>], q: &[Tag], cur: &mut u32, ef: usize, l: usize) -> usize {
        let key = |i: u32| plain(q, &vecs[i as usize]).to_bits();
        let first = key(*cur);
        let mut near = (first, *cur);
        let mut seen = HashSet::from([*cur]);
        let mut cand = std::collections::BinaryHeap::from([(std::cmp::Reverse(first), *cur)]);
        let mut kept = std::collections::BinaryHeap::from([first]);
        while let Some((std::cmp::Reverse(c), i)) = cand.pop() {
            if c > *kept.peek().unwrap() {
                break;
            }
            for x in self.links[i as usize].get(l).into_iter().flatten() {
                if seen.insert(*x) {
                    let k = key(*x);
                    near = near.min((k, *x));
                    if kept.len() < ef || k < *kept.peek().unwrap() {
                        cand.push((std::cmp::Reverse(k), *x));
                        kept.push(k);
                        if kept.len() > ef {
                            kept.pop();
                        }
                    }
                }
            }
        }
        *cur = near.1;
        seen.len()
    }
    /// number of distances to a new point evaluated to find its candidates: width 1 down to its level, then width efc
    fn insertion(&self, vecs: &[Vec<Tag>], q: &[Tag], entry: u32, efc: usize, level: usize) -> usize {
        let (mut cur, mut n) = (entry, 1);
        let top = self.level[entry as usize];
        for l in (level + 1..=top).rev() {
            n += 1 + self.layer(vecs, q, &mut cur, 1, l);
        }
        for l in (0..=level).rev() {
            n += self.layer(vecs, q, &mut cur, efc, l);
        }
        n
    }
    fn note(&mut self, p: &Point<'_, Tag>) {
        let i = p.get_origin_id();
        self.level[i] = p.get_point_id().0 as usize;
        self.links[i] = p.get_neighborhood_id().iter().map(|l| l.iter().map(|x| x.d_id as u32).collect()).collect();
    }
}

fn effort(seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let (dim, n, most, ins) = MOST[idx as usize % MOST.len()];
    let vecs = vectors(&mut rng, n, dim, 0, false);
    let nq = 200;
    let qs = vectors(&mut rng, nq, dim, n + 100, false);
    levels(seed, Lev::Natural);
    let h: H = Hnsw::new(12, *rng.pick(&[1, n, 10 * n]), 16, 64, Watch);
    let a = counted();
    if idx % 12 < 6 {
        let l: Vec<(&Vec<Tag>, usize)> = vecs.iter().zip(0..n).collect();
        h.parallel_insert(&l);
    } else {
        vecs.iter().enumerate().for_each(|(i, v)| h.insert((v, i)));
    }
    let per = (counted() - a) as f64 / n as f64;
    let txt = format!("{n} uniform vectors of dimension {dim}, M 12, construction width 64");
    must!(per <= ins, "an insertion evaluates {per:.1} distances, on the average, more than {ins}: {txt}");
    cx.count(&format!("insertion_{dim}_{n}"), per as u64);
    let mut book = Book::of(&h, n + 100);
    // some more, one by one
    let more = vectors(&mut rng, 100, dim, n, false);
    let vecs: Vec<Vec<Tag>> = vecs.into_iter().chain(more).collect();
    let (mut by_book, mut seen) = (0, 0);
    for i in n..n + 100 {
        let (_, log) = watched(|| h.insert((&vecs[i], i)));
        let e = against(&log, i as u32);
        let pts: Vec<_> = h.get_point_indexation().into_iter().collect();
        let Some(p) = pts.iter().find(|p| p.get_origin_id() == i) else { viol!("vector {i} not stored") };
        by_book += book.insertion(&vecs, &vecs[i], e[0], 64, p.get_point_id().0 as usize);
        seen += e.len();
        let near: HashSet<usize> = p.get_neighborhood_id().iter().flatten().map(|x| x.d_id).collect();
        book.note(p);
        pts.iter().filter(|q| near.contains(&q.get_origin_id())).for_each(|q| book.note(q));
        cx.events += 1;
    }
    let (by_book, seen) = (by_book as f64 / 100., seen as f64 / 100.);
    must!(
        seen <= 1.02 * by_book + 0.5,
        "an insertion evaluates {seen:.1} distances to the new point, on the average; width 1 down to its level, then the construction width, would evaluate {by_book:.1}: {txt}"
    );
    cx.count("insertions_like_the_book", (seen == by_book) as u64);
    for (w, most) in [1usize, 16, 64].iter().zip(most) {
        for filtered in [false, true] {
            let a = counted();
            let mut by_book = 0;
            for (j, q) in qs.iter().enumerate() {
                let (r, log) = watched(|| {
                    if filtered {
                        let f = |_: &usize| true;
                        h.search_filter(q, 1, *w, Some(&f))
                    } else {
                        h.search(q, 1, *w)
                    }
                });
                must!(r.len() == 1, "{} answers for k 1", r.len());
                // a search begins by its entry point
                let e = against(&log, (n + 100 + j) as u32);
                by_book += book.search(&vecs, q, e[0], *w);
            }
            let by_book = by_book as f64 / nq as f64;
            let per = (counted() - a) as f64 / nq as f64;
            must!(
                per <= most,
                "a search of width {w} (filtered {filtered}) evaluates {per:.1} distances, on the average, more than {most}: {txt}"
            );
            must!(
                per <= 1.02 * by_book + 0.5,
                "a search of width {w} (filtered {filtered}) evaluates {per:.1} distances, on the average; one step in each layer then a search of width {w} in the lowest would evaluate {by_book:.1}: {txt}"
            );
            cx.count("like_the_book", (per == by_book) as u64);
            cx.count(&format!("search_{dim}_{n}_{w}"), per as u64);
            cx.events += nq as u64;
        }
    }
    cx.key(hash_words(&[dim as u64, n as u64, seed]));
    cx.sample(txt);
    Ok(())
}

pub fn c26(kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    match kind {
        "seen" => seen(seed, cx),
        _ => effort(seed, idx, cx),
    }
}

/// C22 : without extension, neighbours are chosen among the nearest points the search of the insertion evaluated, as many as the construction width
pub fn met(seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let n = rng.range(5, 200);
    let dim = rng.range(1, 6);
    let m = *rng.pick(&[2, 3, 4, 6, 8]);
    let efc = *rng.pick(&[1, 2, 3, 5, 8, 12, 16, 17, 30, 50]);
    let vecs = vectors(&mut rng, n, dim, 0, false);
    levels(seed, Lev::All(0));
    let mut h: H = Hnsw::new(m, n, 16, efc, Watch);
    h.set_keeping_pruned(rng.chance(0.4));
    let txt = format!("{n} vectors of {dim}, M {m} width {efc}, one layer");
    for (i, v) in vecs.iter().enumerate() {
        let (_, log) = watched(|| h.insert((v, i)));
        let e: HashSet<u32> = against(&log, i as u32).into_iter().collect();
        if i == 0 {
            continue;
        }
        let p = h.get_point_indexation().into_iter().find(|p| p.get_origin_id() == i);
        let Some(p) = p else { viol!("vector {i} not stored") };
        let mut ds: Vec<f32> = e.iter().map(|j| plain(v, &vecs[*j as usize])).collect();
        ds.sort_by(|a, b| a.total_cmp(b));
        let far = ds[efc.min(ds.len()) - 1];
        for x in &p.get_neighborhood_id()[0] {
            must!(e.contains(&(x.d_id as u32)), "vector {} chosen as a neighbour of {i} without an evaluation: {txt}", x.d_id);
            must!(
                x.distance <= far,
                "neighbour {} of {i} chosen at {}, it is not among the {efc} nearest of the {} vectors evaluated, which are at most at {far}: {txt}",
                x.d_id,
                x.distance,
                ds.len()
            );
            cx.events += 1;
        }
        if ds.len() > efc {
            cx.count("more_met_than_candidates", 1);
        }
    }
    cx.key(hash_words(&[n as u64, m as u64, efc as u64, seed]));
    cx.sample(txt);
    Ok(())
}
