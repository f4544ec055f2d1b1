//! C27 what must make no difference: ids, units, mirror images, the functions called, other indexes, the logger.

use crate::core::*;
use crate::ctl::*;
use crate::ctx::Ctx;
use crate::oracle::*;
use crate::rng::*;
use crate::{must, viol};
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use std::collections::HashMap;

pub trait Num: El + PartialEq {
    fn of(x: f64) -> Self;
}
impl Num for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
}
impl Num for f64 {
    fn of(x: f64) -> f64 {
        x
    }
}
impl Num for i32 {
    fn of(x: f64) -> i32 {
        x as i32
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Call {
    /// insertion: 0 insert, 1 insert_slice, 2 AnnT, 3 in turn
    ins: u8,
    /// search: 0 search, 1 search_filter(None), 2 AnnT, 3 batches, 4 filter accepting all
    sea: u8,
    hint: usize,
    log: bool,
    /// other indexes are built by other threads at the same time
    crowd: bool,
    /// searches between insertions
    mixed: bool,
    /// dumped and reloaded at the end
    reload: u8,
}

#[derive(Clone, Debug)]
struct Base {
    m: usize,
    efc: usize,
    ext: bool,
    keep: bool,
    lev: Lev,
    seed: u64,
    scale: Option<f64>,
    /// (k, ef, one in z is refused by the filter)
    qs: Vec<(usize, usize, usize)>,
}

/// links by number of insertion and layer: (number, distance); answers the same
#[derive(PartialEq)]
struct Seen {
    place: Vec<(u8, i32)>,
    links: Vec<Vec<Vec<(usize, u32)>>>,
    flat: Vec<Vec<u32>>,
    answers: Vec<Vec<(usize, u32)>>,
    filtered: Vec<Vec<(usize, u32)>>,
}

fn observe<T: Num, D: Distance<T> + Default + Send + Sync + 'static>(
    b: &Base,
    c: &Call,
    vecs: &[Vec<T>],
    qs: &[Vec<T>],
    ids: &[usize],
    unit: f32,
    cx: &mut Ctx,
) -> R<Seen> {
    levels(b.seed, b.lev);
    let max = log::max_level();
    if c.log {
        log::set_max_level(log::LevelFilter::Trace);
    }
    let mut h: Hnsw<'static, T, D> = Hnsw::new(b.m, c.hint, 16, b.efc, D::default());
    h.set_extend_candidates(b.ext);
    h.set_keeping_pruned(b.keep);
    if let Some(s) = b.scale {
        h.modify_level_scale(s);
    }
    let stop = std::sync::atomic::AtomicBool::new(false);
    let hr = &mut h;
    std::thread::scope(|s| {
        if c.crowd {
            for t in 0..2u64 {
                let stop = &stop;
                s.spawn(move || {
                    let mut r = Rng::new(b.seed ^ t);
                    while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                        let o: Hnsw<'static, T, D> = Hnsw::new(b.m, 10, 16, b.efc.min(50), D::default());
                        for i in 0..r.range(1, 30) {
                            let v = &vecs[r.below(vecs.len())];
                            o.insert((v, i));
                            let _ = o.search(v, 2, 4);
                        }
                    }
                });
            }
        }
        for (i, v) in vecs.iter().enumerate() {
            match if c.ins == 3 { i as u8 % 3 } else { c.ins } {
                0 => hr.insert((v, ids[i])),
                1 => hr.insert_slice((v, ids[i])),
                _ => hr.insert_data(v, ids[i]),
            }
            if c.mixed && i % 5 == 0 {
                hr.set_searching_mode(i % 10 == 0);
                let _ = hr.search(&qs[i % qs.len()], 3, 10);
                let _ = hr.get_point_indexation().into_iter().count();
            }
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
    });
    log::set_max_level(max);
    let d = cx.fresh();
    if c.reload == 0 {
        return look(&h, b, c, vecs, qs, ids, unit, cx);
    }
    let name = match h.file_dump(&d, "same") {
        Ok(n) => n,
        Err(e) => viol!("dump fails: {e}"),
    };
    let mut io = HnswIo::new(&d, &name);
    if c.reload == 2 {
        io.set_options(ReloadOptions::new(true).set_mmap_threshold(1 + vecs.len() / 2));
    }
    let seen = match io.load_hnsw::<T, D>() {
        Ok(r) => look(&r, b, c, vecs, qs, ids, unit, cx),
        Err(e) => viol!("reload fails: {e}"),
    };
    seen
}

#[allow(clippy::too_many_arguments)]
fn look<T: Num, D: Distance<T> + Default + Send + Sync + 'static>(
    h: &Hnsw<'_, T, D>,
    b: &Base,
    c: &Call,
    vecs: &[Vec<T>],
    qs: &[Vec<T>],
    ids: &[usize],
    unit: f32,
    cx: &mut Ctx,
) -> R<Seen> {
    let number: HashMap<usize, usize> = ids.iter().enumerate().map(|(k, i)| (*i, k)).collect();
    let bits = |x: f32| (x / unit).to_bits();
    let n = vecs.len();
    let mut s = Seen { place: vec![(255, -1); n], links: vec![vec![]; n], flat: vec![vec![]; n], answers: vec![], filtered: vec![] };
    for p in h.get_point_indexation() {
        let Some(k) = number.get(&p.get_origin_id()) else { viol!("unknown id {}", p.get_origin_id()) };
        must!(p.get_v() == vecs[*k].as_slice(), "vector {k} is not the one inserted");
        s.place[*k] = (p.get_point_id().0, p.get_point_id().1);
        s.links[*k] = p
            .get_neighborhood_id()
            .iter()
            .map(|l| l.iter().map(|x| (*number.get(&x.d_id).unwrap_or(&usize::MAX), bits(x.distance))).collect())
            .collect();
    }
    let f = FlatNeighborhood::from(h);
    for (k, i) in ids.iter().enumerate() {
        match f.get_neighbours(*i) {
            Some(l) => s.flat[k] = l.iter().map(|x| bits(x.distance)).collect(),
            None => viol!("no flattened list of {i}"),
        }
    }
    let mut put = |a: Vec<Neighbour>| -> Vec<(usize, u32)> {
        cx.events += a.len() as u64;
        a.iter().map(|x| (*number.get(&x.d_id).unwrap_or(&usize::MAX), bits(x.distance))).collect()
    };
    for (j, (k, ef, z)) in b.qs.iter().enumerate() {
        let q = &qs[j];
        let all = |_: &usize| true;
        let a = match c.sea {
            0 => h.search(q, *k, *ef),
            1 => h.search_filter(q, *k, *ef, None),
            2 => h.search_neighbours(q, *k, *ef),
            3 => h.parallel_search(std::slice::from_ref(q), *k, *ef).pop().unwrap_or_default(),
            _ => h.search_filter(q, *k, *ef, Some(&all)),
        };
        s.answers.push(put(a));
        let mut list: Vec<usize> = ids.iter().enumerate().filter(|(i, _)| i % z != 0).map(|(_, x)| *x).collect();
        list.sort_unstable();
        let fun = |i: &usize| number.get(i).is_some_and(|i| i % z != 0);
        let a = if c.sea % 2 == 0 { h.search_filter(q, *k, *ef, Some(&list)) } else { h.search_filter(q, *k, *ef, Some(&fun)) };
        s.filtered.push(put(a));
    }
    Ok(s)
}

fn differ(a: &Seen, b: &Seen, what: &str, txt: &str) -> R<()> {
    for i in 0..a.place.len() {
        must!(a.place[i] == b.place[i], "{what}: vector {i} is stored at {:?} instead of {:?}: {txt}", b.place[i], a.place[i]);
        if a.links[i] != b.links[i] {
            let l = (0..16).find(|l| a.links[i].get(*l) != b.links[i].get(*l)).unwrap_or(0);
            let f = |s: &Seen| s.links[i].get(l).map(|v| v.iter().map(|x| (x.0, f32::from_bits(x.1))).collect::<Vec<_>>());
            viol!("{what}: vector {i} has neighbours {:?} in layer {l} instead of {:?}: {txt}", f(b), f(a));
        }
        must!(a.flat[i] == b.flat[i], "{what}: another flattened list of {i}: {txt}");
    }
    for (w, x, y) in [("answer", &a.answers, &b.answers), ("filtered answer", &a.filtered, &b.filtered)] {
        for j in 0..x.len() {
            let f = |v: &Vec<(usize, u32)>| v.iter().take(6).map(|x| (x.0, f32::from_bits(x.1))).collect::<Vec<_>>();
            must!(x[j] == y[j], "{what}: {w} {j} is {:?} instead of {:?}: {txt}", f(&y[j]), f(&x[j]));
        }
    }
    Ok(())
}

fn run<T: Num, D: Distance<T> + Default + Send + Sync + 'static>(seed: u64, whole: bool, name: &str, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let n = match rng.below(4) {
        0 => rng.range(1, 10),
        1 => rng.range(100, 300),
        _ => rng.range(5, 100),
    };
    let nq = 8;
    let dim = rng.range(2, 9);
    // integers: large enough for all distances to differ, small enough to be exact in f32
    let comp = |r: &mut Rng| if whole { (r.f() * 200000.).floor() } else { (r.f() * 2. - 1.) as f32 as f64 };
    let mut all: Vec<Vec<f64>> = vec![];
    for _ in 0..n + nq {
        all.push((0..dim).map(|_| comp(&mut rng)).collect());
    }
    let b = Base {
        m: *rng.pick(&[2, 3, 4, 6, 8, 16, 32]),
        efc: *rng.pick(&[1, 3, 8, 20, 60, 200]),
        ext: rng.chance(0.25),
        keep: rng.chance(0.3),
        lev: if rng.chance(0.5) { Lev::Natural } else { pick_levels(&mut rng) },
        seed,
        scale: rng.chance(0.3).then(|| 0.2 + 0.8 * rng.f()),
        qs: (0..nq).map(|_| (rng.range(1, n + 3), *rng.pick(&[1, 4, 10, 40, 200]), rng.range(2, 5))).collect(),
    };
    let txt = format!("{name} {n} vectors of {dim}, {b:?}");
    let c0 = Call { ins: 0, sea: 0, hint: n, log: false, crowd: false, mixed: false, reload: 0 };
    let make = |f: &dyn Fn(f64) -> f64| -> (Vec<Vec<T>>, Vec<Vec<T>>) {
        let v: Vec<Vec<T>> = all.iter().map(|v| v.iter().map(|x| T::of(f(*x))).collect()).collect();
        (v[..n].to_vec(), v[n..].to_vec())
    };
    let (v0, q0) = make(&|x| x);
    let i0: Vec<usize> = (0..n).collect();
    // ties would make more than one outcome right
    let d = D::default();
    let tie = v0.iter().chain(&q0).any(|x| {
        let mut ds: Vec<f32> = v0.iter().map(|y| d.eval(x, y)).collect();
        ds.sort_by(|a, b| a.total_cmp(b));
        ds.windows(2).any(|w| w[0] == w[1])
    });
    if tie {
        cx.count("ties", 1);
        return Ok(());
    }
    let s0 = observe::<T, D>(&b, &c0, &v0, &q0, &i0, 1., cx)?;
    // the same again
    let again = observe::<T, D>(&b, &c0, &v0, &q0, &i0, 1., cx)?;
    differ(&s0, &again, "built again in the same way", &txt)?;
    // ids
    let ids: Vec<usize> = match rng.below(4) {
        0 => (0..n).rev().collect(),
        1 => (0..n).map(|i| usize::MAX - i).collect(),
        2 => (0..n).map(|i| (mix(i as u64 ^ seed) as usize & !0xffff) | i).collect(),
        _ => {
            let mut v: Vec<usize> = (0..n).map(|i| i * 65536).collect();
            rng.shuffle(&mut v);
            v
        }
    };
    let s = observe::<T, D>(&b, &c0, &v0, &q0, &ids, 1., cx)?;
    differ(&s0, &s, "with other ids", &txt)?;
    // units
    if !whole {
        let e = rng.range(0, 70) as i32 - 25;
        let u = 2f64.powi(e);
        let (v, q) = make(&|x| x * u);
        let s = observe::<T, D>(&b, &c0, &v, &q, &i0, u as f32, cx)?;
        differ(&s0, &s, &format!("in a unit 2^{e} times smaller"), &txt)?;
        let (v, q) = make(&|x| -x);
        let s = observe::<T, D>(&b, &c0, &v, &q, &i0, 1., cx)?;
        differ(&s0, &s, "with all signs changed", &txt)?;
    } else {
        let t = rng.range(0, 16_000_000) as f64 - 8_000_000.;
        let (v, q) = make(&|x| x + t);
        let s = observe::<T, D>(&b, &c0, &v, &q, &i0, 1., cx)?;
        differ(&s0, &s, &format!("moved by {t}"), &txt)?;
    }
    // calls
    let c = Call {
        ins: rng.below(4) as u8,
        sea: rng.below(5) as u8,
        hint: *rng.pick(&[0, 1, n / 2, n, 10 * n, 100000]),
        log: n < 40 && rng.chance(0.3),
        crowd: b.lev == Lev::Natural && rng.chance(0.3),
        mixed: rng.chance(0.3),
        reload: if b.ext { 0 } else { rng.below(3) as u8 },
    };
    let s = observe::<T, D>(&b, &c, &v0, &q0, &i0, 1., cx)?;
    differ(&s0, &s, &format!("with {c:?}"), &txt)?;
    cx.count("pairs", 5);
    if n > 1 {
        cx.key(hash_words(&[n as u64, dim as u64, b.m as u64, b.efc as u64, seed]));
    }
    cx.sample(txt);
    Ok(())
}

pub fn c27(_kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    match seed % 6 {
        0 => run::<f32, DistL2>(seed, false, "f32 L2", cx),
        1 => run::<f64, DistL2>(seed, false, "f64 L2", cx),
        2 => run::<f32, DistL1>(seed, false, "f32 L1", cx),
        3 => run::<f64, DistL1>(seed, false, "f64 L1", cx),
        4 => run::<i32, DistL1>(seed, true, "i32 L1", cx),
        _ => run::<i32, DistL2>(seed, true, "i32 L2", cx),
    }
}
