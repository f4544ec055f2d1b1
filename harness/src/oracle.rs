//! The oracles: what an observed answer, graph or file must satisfy.

use crate::core::*;
use std::collections::{HashMap, HashSet};

pub enum Fail {
    Viol(String),
    Inc(String),
}
pub type R<T> = Result<T, Fail>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::oracle::Fail::Viol(format!($($a)*))) };
}
#[macro_export]
macro_rules! must {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::oracle::Fail::Viol(format!($($a)*))); } };
}
#[macro_export]
macro_rules! inc {
    ($($a:tt)*) => { return Err($crate::oracle::Fail::Inc(format!($($a)*))) };
}

/// equal up to the rounding of another evaluation order
pub fn near(a: f32, b: f32) -> bool {
    if a == b {
        return true;
    }
    let d = (a as f64 - b as f64).abs();
    d <= 2e-6 * (a.abs().max(b.abs()) as f64) + 1e-7
}

/// what is stored, by position
pub struct Table {
    pub pts: HashMap<Pid, (usize, Vec<u8>)>,
}

impl Table {
    pub fn of(ix: &dyn Index) -> Table {
        Table {
            pts: ix.points().into_iter().map(|p| (p.pid, (p.id, p.bytes))).collect(),
        }
    }
}

/// metric value reported for (query, stored) : either order of arguments is accepted
pub fn dist_ok(sp: &dyn Space, q: usize, b: &[u8], d: f32) -> bool {
    if near(sp.dist_qb(q, b), d) {
        return true;
    }
    near(sp.dist_bb(b, &sp.vbytes(q)), d)
}

/// C02 : contract of an answer on a quiescent index
pub fn answer(sp: &dyn Space, t: &Table, q: usize, k: usize, a: &[Nb]) -> R<()> {
    must!(a.len() <= k, "search asked {k} neighbours, got {}", a.len());
    let mut seen = HashSet::new();
    let mut last = f32::NEG_INFINITY;
    for n in a {
        must!(!n.d.is_nan(), "NaN distance in answer");
        must!(n.d >= last, "answer not sorted: {} after {}", n.d, last);
        last = n.d;
        must!(seen.insert(n.pid), "point {:?} twice in answer", n.pid);
        match t.pts.get(&n.pid) {
            None => viol!("answer refers to {:?} which is not a stored point", n.pid),
            Some((id, b)) => {
                must!(*id == n.id, "answer gives id {} for {:?}, inserted with id {}", n.id, n.pid, id);
                must!(
                    dist_ok(sp, q, b, n.d),
                    "answer gives distance {} for point {} at {:?}, metric says {}",
                    n.d,
                    n.id,
                    n.pid,
                    sp.dist_qb(q, b)
                );
            }
        }
    }
    Ok(())
}

/// C02 and non emptiness
pub fn answer_full(sp: &dyn Space, t: &Table, q: usize, k: usize, a: &[Nb]) -> R<()> {
    answer(sp, t, q, k, a)?;
    if t.pts.is_empty() {
        must!(a.is_empty(), "answer on an empty index");
    } else if k > 0 {
        must!(!a.is_empty(), "empty answer on a non empty index, k {k}");
    }
    Ok(())
}

/// sorted brute force distances over points accepted
pub fn brute(sp: &dyn Space, t: &Table, q: usize, acc: &dyn Fn(usize) -> bool) -> Vec<f32> {
    let mut v: Vec<f32> = t
        .pts
        .values()
        .filter(|(id, _)| acc(*id))
        .map(|(_, b)| sp.dist_qb(q, b))
        .collect();
    v.sort_by(|a, b| a.total_cmp(b));
    v
}

/// the answer holds the k nearest
pub fn exact(bf: &[f32], k: usize, a: &[Nb], what: &str) -> R<()> {
    let want = k.min(bf.len());
    must!(
        a.len() == want,
        "{what}: {} entries instead of {want} (k {k}, {} candidates)",
        a.len(),
        bf.len()
    );
    for i in 0..want {
        must!(
            near(a[i].d, bf[i]),
            "{what}: entry {i} at distance {}, brute force gives {}",
            a[i].d,
            bf[i]
        );
    }
    Ok(())
}

/// C01 : content of the index
pub fn content(sp: &dyn Space, ix: &dyn Index, inserted: &[(usize, usize)]) -> R<()> {
    let n = inserted.len();
    must!(ix.nb_point() == n, "{} points reported, {} inserted", ix.nb_point(), n);
    let ml = 16;
    let by_layer: Vec<usize> = (0..ml + 2).map(|l| ix.layer_nb(l)).collect();
    must!(
        by_layer.iter().sum::<usize>() == n,
        "layers hold {:?} points, {} inserted",
        by_layer,
        n
    );
    let pts = ix.points();
    must!(pts.len() == n, "iteration visits {} points, {} inserted", pts.len(), n);
    let mut pids = HashSet::new();
    let mut want: HashMap<(usize, Vec<u8>), i64> = HashMap::new();
    for (i, id) in inserted {
        *want.entry((*id, sp.vbytes(*i))).or_insert(0) += 1;
    }
    for p in &pts {
        must!(pids.insert(p.pid), "iteration visits {:?} twice", p.pid);
        match want.get_mut(&(p.id, p.bytes.clone())) {
            Some(c) if *c > 0 => *c -= 1,
            _ => viol!("stored point {:?} id {} is not an inserted pair (or stored too often)", p.pid, p.id),
        }
        match ix.point_data(p.pid) {
            Some(b) => must!(b == p.bytes, "point_data({:?}) differs from the vector inserted", p.pid),
            None => viol!("point_data({:?}) gives nothing for a stored point", p.pid),
        }
    }
    let mut per_layer = HashSet::new();
    for l in 0..ix.max_level().min(16) {
        let lp = ix.layer_points(l);
        must!(
            lp.len() == by_layer[l],
            "layer {l} iteration visits {} points, count says {}",
            lp.len(),
            by_layer[l]
        );
        for p in lp {
            must!(p.pid.0 as usize == l, "layer {l} iteration gives point {:?}", p.pid);
            must!(per_layer.insert(p.pid), "layer iterations visit {:?} twice", p.pid);
            must!(pids.contains(&p.pid), "layer iteration gives {:?}, iteration does not", p.pid);
            must!(
                ix.point_data(p.pid).as_deref() == Some(&p.bytes[..]),
                "layer iteration vector of {:?} differs",
                p.pid
            );
        }
    }
    must!(per_layer.len() == n, "layer iterations visit {} points of {}", per_layer.len(), n);
    // positions never given out
    let mut bad: Vec<Pid> = vec![
        (0, -1),
        (0, i32::MIN),
        (0, i32::MAX),
        (255, 0),
        (16, 0),
        (17, 3),
        (15, 1_000_000),
        (128, -7),
    ];
    for (l, c) in by_layer.iter().enumerate().take(16) {
        bad.push((l as u8, *c as i32));
        bad.push((l as u8, *c as i32 + 1));
        bad.push((l as u8, -1));
    }
    for b in bad {
        if !pids.contains(&b) {
            must!(ix.point_data(b).is_none(), "point_data({:?}) gives a vector, no such point", b);
        }
    }
    Ok(())
}

/// facts on a graph for evidence
#[derive(Default)]
pub struct GraphFacts {
    pub links: u64,
    pub full_lists: u64,
    pub levels: u64,
}

/// C08 : structure of the graph. `sp` None : no metric check
pub fn graph(sp: Option<&dyn Space>, ix: &dyn Index, g: &[GPt]) -> R<GraphFacts> {
    let m = ix.m();
    let mut f = GraphFacts::default();
    let tab: HashMap<Pid, (usize, usize)> = g.iter().enumerate().map(|(i, p)| (p.pid, (p.id, i))).collect();
    must!(tab.len() == g.len(), "positions are not distinct");
    let maxl = g.iter().map(|p| p.pid.0).max().unwrap_or(0);
    must!(
        ix.max_level_obs() == maxl,
        "maximum level reported {}, highest stored level {}",
        ix.max_level_obs(),
        maxl
    );
    must!(
        (maxl as usize) < ix.max_level().min(16),
        "level {} reaches the maximum number of layers {}",
        maxl,
        ix.max_level()
    );
    // layers reached: how many points of level >= l
    let mut reach = [0usize; 18];
    for p in g {
        for r in reach.iter_mut().take(p.pid.0 as usize + 1) {
            *r += 1;
        }
    }
    f.levels = maxl as u64 + 1;
    for p in g {
        for (l, list) in p.nb.iter().enumerate() {
            let cap = if l == 0 { 2 * m } else { m };
            must!(list.len() <= cap, "point {:?} has {} neighbours in layer {l}, M {m}", p.pid, list.len());
            f.links += list.len() as u64;
            if list.len() == cap {
                f.full_lists += 1;
            }
            let mut seen = HashSet::new();
            let mut last = f32::NEG_INFINITY;
            for n in list {
                must!(n.d >= last, "neighbours of {:?} in layer {l} not in order: {} after {}", p.pid, n.d, last);
                last = n.d;
                must!(n.pid != p.pid, "point {:?} is its own neighbour in layer {l}", p.pid);
                must!(seen.insert(n.pid), "neighbour {:?} twice in list of {:?} layer {l}", n.pid, p.pid);
                match tab.get(&n.pid) {
                    None => viol!("neighbour {:?} of {:?} in layer {l} is not stored", n.pid, p.pid),
                    Some((id, i)) => {
                        must!(*id == n.id, "neighbour {:?} recorded with id {}, its id is {}", n.pid, n.id, id);
                        if let Some(sp) = sp {
                            let d = sp.dist_bb(&p.bytes, &g[*i].bytes);
                            let d2 = sp.dist_bb(&g[*i].bytes, &p.bytes);
                            must!(
                                near(d, n.d) || near(d2, n.d),
                                "neighbour {:?} of {:?} layer {l} recorded at distance {}, metric says {}",
                                n.pid,
                                p.pid,
                                n.d,
                                d
                            );
                        }
                    }
                }
            }
        }
        if g.len() >= 2 {
            for l in 0..=p.pid.0 as usize {
                let others = reach[l] - 1;
                let empty = p.nb.get(l).map_or(true, |v| v.is_empty());
                if l == 0 || others > 0 {
                    must!(
                        !empty,
                        "point {:?} has no neighbour in layer {l}, which {} other points reach",
                        p.pid,
                        others
                    );
                }
            }
        }
    }
    Ok(f)
}

fn canon(l: &[Nb]) -> Vec<(u32, Pid, usize)> {
    let mut v: Vec<_> = l.iter().map(|n| (n.d.to_bits(), n.pid, n.id)).collect();
    v.sort();
    v
}

/// same points, ids, vectors, lists (order of equal distances free)
pub fn same_graph(a: &[GPt], b: &[GPt], data: bool, what: &str) -> R<bool> {
    must!(a.len() == b.len(), "{what}: {} points, expected {}", b.len(), a.len());
    let mb: HashMap<Pid, &GPt> = b.iter().map(|p| (p.pid, p)).collect();
    must!(mb.len() == b.len(), "{what}: position given twice");
    let mut identical = true;
    for p in a {
        let o = match mb.get(&p.pid) {
            Some(o) => *o,
            None => viol!("{what}: point {:?} lost", p.pid),
        };
        must!(p.id == o.id, "{what}: point {:?} has id {} instead of {}", p.pid, o.id, p.id);
        if data {
            must!(p.bytes == o.bytes, "{what}: vector of point {:?} id {} differs", p.pid, p.id);
        }
        for l in 0..p.nb.len().max(o.nb.len()) {
            let e = Vec::new();
            let x = p.nb.get(l).unwrap_or(&e);
            let y = o.nb.get(l).unwrap_or(&e);
            if x != y {
                must!(
                    canon(x) == canon(y),
                    "{what}: neighbours of {:?} in layer {l} differ: {:?} instead of {:?}",
                    p.pid,
                    y,
                    x
                );
                identical = false;
            }
            let mut last = f32::NEG_INFINITY;
            for n in y {
                must!(n.d >= last, "{what}: neighbours of {:?} in layer {l} not in order", p.pid);
                last = n.d;
            }
        }
    }
    Ok(identical)
}

/// C10 / C08 : flattened neighbourhood against the lists per layer
pub fn flat(g: &[GPt], fl: &dyn Flat, what: &str) -> R<u64> {
    let mut count: HashMap<usize, usize> = HashMap::new();
    for p in g {
        *count.entry(p.id).or_insert(0) += 1;
    }
    let mut n = 0;
    for p in g {
        if count[&p.id] > 1 {
            continue;
        }
        let f = match fl.get(p.id) {
            Some(f) => f,
            None => viol!("{what}: no neighbourhood for stored id {}", p.id),
        };
        let all: Vec<Nb> = p.nb.iter().flatten().copied().collect();
        must!(
            canon(&all) == canon(&f),
            "{what}: flattened neighbours of id {} ({}) are not those of its layers ({})",
            p.id,
            f.len(),
            all.len()
        );
        let mut last = f32::NEG_INFINITY;
        for x in &f {
            must!(x.d >= last, "{what}: flattened neighbours of id {} not in order", p.id);
            last = x.d;
        }
        n += 1;
    }
    for id in [0usize, 1, 7, usize::MAX, usize::MAX / 2, 123_456_789] {
        if !count.contains_key(&id) {
            must!(fl.get(id).is_none(), "{what}: neighbourhood given for id {id} which is not stored");
        }
    }
    Ok(n)
}
