//! C09 .. C16 : dumps and reloads.

use crate::cfg::*;
use crate::core::*;
use crate::ctl::*;
use crate::ctx::Ctx;
use crate::dumpfile;
use crate::oracle::*;
use crate::pa::{disturb, exact_all, pick_ef, pick_k, tag};
use crate::rng::*;
use crate::spaces::*;
use crate::{inc, must, viol};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

pub struct Facts {
    pub nb_point: usize,
    pub layers: Vec<usize>,
    pub top: u8,
    pub m: usize,
    pub efc: usize,
    pub max_layer: usize,
    pub scale: f64,
    pub dim: usize,
    pub dname: String,
}

pub fn facts(ix: &dyn Index) -> Facts {
    Facts {
        nb_point: ix.nb_point(),
        layers: (0..16).map(|l| ix.layer_nb(l)).collect(),
        top: ix.max_level_obs(),
        m: ix.m(),
        efc: ix.efc(),
        max_layer: ix.max_level(),
        scale: ix.scale(),
        dim: ix.dim(),
        dname: ix.dist_name(),
    }
}

pub fn same_facts(a: &Facts, b: &Facts, data: bool, what: &str) -> R<()> {
    must!(a.nb_point == b.nb_point, "{what}: {} points reported instead of {}", b.nb_point, a.nb_point);
    must!(a.layers == b.layers, "{what}: points per layer {:?} instead of {:?}", b.layers, a.layers);
    must!(a.top == b.top, "{what}: maximum level {} instead of {}", b.top, a.top);
    must!(a.m == b.m, "{what}: M {} instead of {}", b.m, a.m);
    must!(a.efc == b.efc, "{what}: ef construction {} instead of {}", b.efc, a.efc);
    must!(
        (a.scale - b.scale).abs() <= 1e-12 * a.scale.abs(),
        "{what}: level scale {} instead of {}",
        b.scale,
        a.scale
    );
    if data {
        must!(a.dname == b.dname, "{what}: metric {} instead of {}", b.dname, a.dname);
        must!(a.dim == b.dim, "{what}: dimension {} instead of {}", b.dim, a.dim);
    }
    must!(
        a.max_layer.min(16) == b.max_layer,
        "{what}: maximum number of layers {} instead of {}",
        b.max_layer,
        a.max_layer.min(16)
    );
    Ok(())
}

/// queries and the answers of the original index
pub struct Probe {
    pub qs: Vec<(usize, usize, usize)>,
    pub plain: Vec<Vec<Nb>>,
    pub filt: Vec<Vec<Nb>>,
    pub ids: Vec<usize>,
}

pub fn probe(rng: &mut Rng, c: &Cfg, ix: &dyn Index, list: &[(usize, usize)], n: usize) -> Probe {
    let qs: Vec<(usize, usize, usize)> = (0..n)
        .map(|i| {
            let k = pick_k(rng, c.n).min(200);
            let q = if i % 3 == 0 && c.n > 0 { rng.below(c.n) } else { c.n + rng.below(c.nq) };
            (q, k, pick_ef(rng, c.n, k))
        })
        .collect();
    let mut ids: Vec<usize> = list.iter().map(|x| x.1).filter(|_| rng.chance(0.5)).collect();
    ids.sort_unstable();
    ids.dedup();
    let plain = qs.iter().map(|(q, k, ef)| ix.search(*q, *k, *ef)).collect();
    let filt = qs
        .iter()
        .map(|(q, k, ef)| ix.search_filter(*q, *k, *ef, Some(&Filt::Ids(ids.clone()))))
        .collect();
    Probe { qs, plain, filt, ids }
}

pub fn same_answers(p: &Probe, ix: &dyn Index, identical: bool, what: &str, cx: &mut Ctx) -> R<()> {
    for (i, (q, k, ef)) in p.qs.iter().enumerate() {
        let a = ix.search(*q, *k, *ef);
        let f = ix.search_filter(*q, *k, *ef, Some(&Filt::Ids(p.ids.clone())));
        cx.events += 2;
        if identical {
            must!(
                a == p.plain[i],
                "{what}: search (query {q} k {k} ef {ef}) answers {:?} instead of {:?}",
                a.iter().take(5).collect::<Vec<_>>(),
                p.plain[i].iter().take(5).collect::<Vec<_>>()
            );
            must!(f == p.filt[i], "{what}: filtered search (query {q} k {k} ef {ef}) answers differently");
        }
    }
    if identical {
        cx.count("identical_answers", p.qs.len() as u64);
    }
    Ok(())
}

pub fn base_name(rng: &mut Rng) -> String {
    rng.pick(&["dump", "a", "x-1", "my.base", "with space", "d_2.hnsw", "nested.graph"]).to_string()
}

pub fn dump_ok(ix: &dyn Index, d: &Path, b: &str) -> R<String> {
    match ix.dump(d, b) {
        Ok(b) => Ok(b),
        Err(e) => viol!("a dump in a writable directory fails: {e}"),
    }
}

pub fn parsed(d: &Path, b: &str) -> R<dumpfile::Dump> {
    match dumpfile::parse(d, b) {
        Ok(p) => Ok(p),
        Err(e) => viol!("the files of a dump reported as done are not complete: {e}"),
    }
}

pub fn reload_ok(sp: &dyn Space, d: &Path, b: &str, how: How) -> R<Box<dyn Index>> {
    match sp.reload(d, b, how) {
        Ok(i) => Ok(i),
        Err(e) => viol!("reload {how:?} of a complete dump fails: {e}"),
    }
}

pub fn want_dump(rng: &mut Rng, kind: &str) -> Cfg {
    let mut c = rand_cfg(
        rng,
        &Want {
            nmin: 1,
            nmax: match kind {
                "large" => 3000,
                "tiny" => 6,
                _ => 250,
            },
            dumpable: true,
            distinct_ids: true,
            nq: 16,
            generic: kind == "generic",
            dimmax: if kind == "large" { 8 } else { 24 },
            ..Default::default()
        },
    );
    if kind == "large" {
        c.n = c.n.max(500);
        c.p.efc = c.p.efc.min(40);
        c.p.extend = false;
    }
    if kind == "long" {
        longer(rng, &mut c);
    }
    if kind == "huge" {
        hugely(rng, &mut c);
    }
    c
}

/// few long vectors
pub fn longer(rng: &mut Rng, c: &mut Cfg) {
    let around = *rng.pick(&[256, 1000, 1024, 2048, 4096, 8192, 16384, 20000, 32768, 65536, 100000]);
    c.dim = (around + rng.below(5)).saturating_sub(2);
    c.n = rng.range(1, 8);
    c.nq = c.nq.min(3);
    c.p.efc = c.p.efc.min(10);
    if KINDS[c.kind % KINDS.len()].name.contains("Levenshtein") {
        c.dim = c.dim.min(1500);
    }
}

// ---------------------------------------------------------------- C09

pub fn c09(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = want_dump(&mut rng, kind);
    if rng.chance(0.2) && kind != "large" && kind != "huge" {
        c.ids = rng.range(6, 7) as u8;
    }
    let sp = c.space();
    inject(seed, disturb(&mut rng));
    let (ix, list) = c.build(&*sp);
    cx.schedule();
    inject(seed, Inj::Off);
    let g0 = ix.graph();
    let f0 = facts(&*ix);
    let p = probe(&mut rng, &c, &*ix, &list, 12);
    let d = cx.fresh();
    let asked = base_name(&mut rng);
    let base = dump_ok(&*ix, &d, &asked)?;
    must!(base == asked, "dump of a new index asked under {asked} is named {base}");
    let txt = c.text();
    // the files
    let dp = parsed(&d, &base)?;
    let mut same_order = same_graph(&g0, &dp.pts, true, "dump files")?;
    let head = |h: &dumpfile::Header, w: &str| -> R<()> {
        must!(h.m as usize == f0.m, "{w}: M {} instead of {}", h.m, f0.m);
        must!(h.scale == f0.scale, "{w}: level scale {} instead of {}", h.scale, f0.scale);
        must!(h.nb_layer as usize == f0.max_layer.min(16), "{w}: {} layers instead of {}", h.nb_layer, f0.max_layer);
        must!(h.ef == f0.efc, "{w}: ef {} instead of {}", h.ef, f0.efc);
        must!(h.nb_point == f0.nb_point, "{w}: {} points instead of {}", h.nb_point, f0.nb_point);
        must!(h.dname == sp.dname(), "{w}: metric {} instead of {}", h.dname, sp.dname());
        must!(h.tname == sp.tname(), "{w}: type {} instead of {}", h.tname, sp.tname());
        if f0.nb_point > 0 && (0..c.n).all(|i| sp.vlen(i) == sp.vlen(0)) {
            must!(h.dim == sp.vlen(0), "{w}: dimension {} instead of {}", h.dim, sp.vlen(0));
        }
        Ok(())
    };
    head(&dp.h, "header of dump")?;
    must!(
        dp.entry.1 == f0.top,
        "entry point of the dump in layer {}, maximum level is {}",
        dp.entry.1,
        f0.top
    );
    // description
    let (gp, _) = dumpfile::paths(&d, &base);
    match describe(&gp) {
        Err(e) => viol!("description of a complete dump: {e}"),
        Ok(s) => {
            let h = dumpfile::Header {
                mode: s.dumpmode,
                m: s.max_nb_connection,
                scale: s.level_scale,
                nb_layer: s.nb_layer,
                ef: s.ef,
                nb_point: s.nb_point,
                dim: s.dimension,
                dname: s.distname.clone(),
                tname: s.t_name.clone(),
            };
            head(&h, "description")?;
            must!(h == dp.h, "description {:?} is not the header {:?}", h, dp.h);
        }
    }
    // reloads
    let hows: &[How] = if sp.has_default() { &[How::Normal, How::WithDist] } else { &[How::WithDist] };
    for how in hows {
        let w = format!("reload {how:?}");
        let r = reload_ok(&*sp, &d, &base, *how).map_err(|e| tag(e, &txt))?;
        same_facts(&f0, &facts(&*r), true, &w)?;
        content(&*sp, &*r, &list).map_err(|e| tag(e, &w))?;
        let g1 = r.graph();
        let ident = same_graph(&g0, &g1, true, &w)?;
        same_answers(&p, &*r, ident, &w, cx)?;
        if c.n <= c.p.m {
            // exactness carries over
            let t = Table::of(&*r);
            for (q, k, _) in &p.qs {
                let a0 = ix.search(*q, *k, c.n);
                let a1 = r.search(*q, *k, c.n);
                answer_full(&*sp, &t, *q, *k, &a1)?;
                must!(
                    a0.len() == a1.len() && a0.iter().zip(&a1).all(|(x, y)| near(x.d, y.d)),
                    "{w}: wide search answers other distances"
                );
            }
        }
        // dump again
        let d2 = cx.fresh();
        let b2 = dump_ok(&*r, &d2, &asked)?;
        let dp2 = parsed(&d2, &b2)?;
        same_graph(&dp.pts, &dp2.pts, true, "second dump")?;
        let mut h2 = dp2.h.clone();
        h2.mode = dp.h.mode;
        must!(h2 == dp.h, "header of second dump {:?}, of first {:?}", dp2.h, dp.h);
        must!(dp2.entry == dp.entry, "entry point of second dump {:?}, of first {:?}", dp2.entry, dp.entry);
        if ident {
            // byte for byte
            let (g1, d1) = dumpfile::paths(&d, &base);
            let (g2, d2) = dumpfile::paths(&d2, &b2);
            must!(std::fs::read(&d1).ok() == std::fs::read(&d2).ok(), "data file of the second dump differs");
            if dp2.h.mode == dp.h.mode && same_order {
                must!(std::fs::read(&g1).ok() == std::fs::read(&g2).ok(), "graph file of the second dump differs");
            }
        }
        // and once more
        if rng.chance(0.3) {
            let r2 = reload_ok(&*sp, &d2, &b2, *how)?;
            same_facts(&f0, &facts(&*r2), true, "second reload")?;
            same_order &= same_graph(&g0, &r2.graph(), true, "second reload")?;
        }
        cx.events += g1.len() as u64 * 3;
        let _ = std::fs::remove_dir_all(&d2);
    }
    if c.n > 1 {
        cx.key(c.key());
    }
    cx.sample(txt);
    Ok(())
}

// ---------------------------------------------------------------- C10

pub fn c10(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = want_dump(&mut rng, kind);
    let dup_ids = rng.chance(0.15) && kind != "large" && kind != "huge";
    if dup_ids {
        c.ids = 6;
    }
    let sp = c.space();
    let (ix, _) = c.build(&*sp);
    let g0 = ix.graph();
    let f0 = facts(&*ix);
    cx.events += flat(&g0, &*ix.flat(), "flattening of the index")?;
    let d = cx.fresh();
    let base = dump_ok(&*ix, &d, "g")?;
    // without the data file being of any use
    let hows = [
        How::Normal,
        How::WithDist,
        How::Mmap(rng.range(1, c.n + 1)),
        How::Mmap(0),
    ];
    for how in hows {
        if matches!(how, How::Mmap(_)) && rng.chance(0.5) {
            continue;
        }
        let w = format!("graph only reload {how:?}");
        let r = match reload_nodata(&d, &base, how) {
            Ok(r) => r,
            Err(e) => viol!("{w} fails: {e} on {}", c.text()),
        };
        same_facts(&f0, &facts(&*r), false, &w)?;
        let g1 = r.graph();
        same_graph(&g0, &g1, false, &w)?;
        must!(r.points().len() == c.n, "{w}: iteration visits {} points of {}", r.points().len(), c.n);
        let fl = r.flat();
        cx.events += flat(&g0, &*fl, &w)?;
        // same as the flattening of the full index
        if !dup_ids {
            let f0 = ix.flat();
            for p in &g0 {
                let (a, b) = (f0.get(p.id), fl.get(p.id));
                match (a, b) {
                    (Some(a), Some(b)) => must!(
                        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.d == y.d),
                        "{w}: flattened neighbourhood of {} differs from that of the full index",
                        p.id
                    ),
                    _ => viol!("{w}: flattened neighbourhood of {} missing", p.id),
                }
            }
        }
        cx.events += g1.len() as u64;
        // dumping the graph only index and reloading it keeps the graph
        drop(r);
    }
    if c.n > 1 {
        cx.key(c.key());
    }
    cx.sample(c.text());
    Ok(())
}

// ---------------------------------------------------------------- C11

pub struct Cwd(PathBuf);
impl Cwd {
    pub fn enter(p: &Path) -> Cwd {
        let c = std::env::current_dir().expect("cwd");
        std::env::set_current_dir(p).expect("chdir");
        Cwd(c)
    }
}
impl Drop for Cwd {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

pub fn datamap_ok(sp: &dyn Space, dir: &Path, base: &str, list: &[(usize, usize)], order: &[usize], what: &str) -> R<u64> {
    if sp.owned() {
        must!(sp.datamap(dir, base).is_err(), "{what}: data map of elements that own memory");
        return Ok(0);
    }
    let m = match sp.datamap(dir, base) {
        Ok(m) => m,
        Err(e) => viol!("{what}: data map of a complete dump fails: {e}"),
    };
    must!(m.nb() == list.len(), "{what}: data map says {} data of {}", m.nb(), list.len());
    must!(m.tname() == sp.tname(), "{what}: data map type {} instead of {}", m.tname(), sp.tname());
    must!(m.dname() == sp.dname(), "{what}: data map metric {} instead of {}", m.dname(), sp.dname());
    must!(m.accepts_own(), "{what}: data map refuses its own type");
    must!(!m.accepts_other(), "{what}: data map accepts another type");
    must!(m.ids() == order, "{what}: data map ids are not those of the file in order");
    let mut known = std::collections::HashSet::new();
    for (i, id) in list {
        known.insert(*id);
        match m.get(*id) {
            None => viol!("{what}: data map gives nothing for id {id}"),
            Some(b) => must!(b == sp.vbytes(*i), "{what}: data map gives another vector for id {id}"),
        }
    }
    for id in [0usize, 1, 5, 77_777_777, usize::MAX, usize::MAX / 3] {
        if !known.contains(&id) {
            must!(m.get(id).is_none(), "{what}: data map gives data for id {id} which is not stored");
        }
    }
    Ok(list.len() as u64)
}

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
struct Nil;
#[derive(Clone, Copy, Default)]
struct NilDist;
impl hnsw_rs::prelude::Distance<Nil> for NilDist {
    fn eval(&self, a: &[Nil], b: &[Nil]) -> f32 {
        (a.len() as f32 - b.len() as f32).abs()
    }
}

/// data map of a dump of a type of size 0
fn zero_sized(rng: &mut Rng, cx: &mut Ctx) -> R<()> {
    use hnsw_rs::prelude::*;
    let h = Hnsw::<Nil, NilDist>::new(8, 10, 16, 20, NilDist);
    let n = rng.range(1, 20);
    for i in 0..n {
        h.insert_slice((&vec![Nil; i][..], i));
    }
    let d = cx.fresh();
    match h.file_dump(&d, "nil") {
        Ok(_) => {}
        Err(e) => viol!("dump of a type of size 0: {e}"),
    }
    let m = match hnsw_rs::datamap::DataMap::from_hnswdump::<Nil>(&d, "nil") {
        Ok(m) => m,
        Err(e) => viol!("data map of a type of size 0: {e}"),
    };
    must!(m.get_nb_data() == n, "data map of {n} vectors of a type of size 0 has {}", m.get_nb_data());
    for i in 0..n {
        must!(m.get_data::<Nil>(&i).is_some(), "data map of a type of size 0 has nothing for id {i} of {n}");
    }
    must!(m.get_data::<Nil>(&n).is_none(), "data map of a type of size 0 has something for an unknown id");
    cx.events += n as u64;
    Ok(())
}

pub fn c11(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    if kind == "generic" && seed % 8 == 0 {
        zero_sized(&mut rng, cx)?;
    }
    let c = want_dump(&mut rng, kind);
    let sp = c.space();
    let (ix, list) = c.build(&*sp);
    let d = cx.fresh();
    let asked = base_name(&mut rng);
    let base = dump_ok(&*ix, &d, &asked)?;
    let dp = parsed(&d, &base)?;
    let order: Vec<usize> = dp.pts.iter().map(|p| p.id).collect();
    let p = probe(&mut rng, &c, &*ix, &list, 10);
    let mem = reload_ok(&*sp, &d, &base, if sp.has_default() { How::Normal } else { How::WithDist })?;
    let gm = mem.graph();
    let fm = facts(&*mem);
    let pm = probe_from(&p, &*mem);
    drop(mem);
    // absolute, relative, "." and a symbolic link
    let parent = d.parent().unwrap().to_path_buf();
    let name = PathBuf::from(d.file_name().unwrap());
    let mut dirs: Vec<(Option<PathBuf>, PathBuf, &str)> = vec![(None, d.clone(), "absolute")];
    dirs.push((Some(parent.clone()), name.clone(), "relative"));
    if rng.chance(0.5) {
        dirs.push((Some(d.clone()), PathBuf::from("."), "dot"));
    } else {
        dirs.push((Some(parent.clone()), PathBuf::from(".").join(&name), "relative with dot"));
    }
    if rng.chance(0.3) {
        dirs.push((Some(d.clone()), PathBuf::from("..").join(&name), "dotdot"));
    }
    if kind == "huge" {
        dirs.truncate(1);
    }
    for (cwd, dir, w) in &dirs {
        let _g = cwd.as_ref().map(|c| Cwd::enter(c));
        cx.events += datamap_ok(&*sp, dir, &base, &list, &order, w)?;
        if !sp.has_default() {
            continue;
        }
        let n = c.n;
        let mut ths = vec![0, n / 2, n, 1, 2, n.saturating_sub(1), n + 1, 1 << 40, usize::MAX];
        rng.shuffle(&mut ths);
        let take = if *w == "absolute" && kind != "huge" { 5 } else { 2 };
        for t in ths.into_iter().take(take) {
            let how = if t == 0 { How::Mmap(0) } else { How::Mmap(t) };
            let what = format!("{w} directory, mapped with threshold {t}");
            let r = reload_ok(&*sp, dir, &base, how).map_err(|e| tag(e, &what))?;
            same_facts(&fm, &facts(&*r), true, &what)?;
            content(&*sp, &*r, &list).map_err(|e| tag(e, &what))?;
            let g = r.graph();
            let ident = same_graph(&gm, &g, true, &what)?;
            same_answers(&pm, &*r, ident, &what, cx)?;
            cx.events += g.len() as u64;
            cx.count("mapped_reloads", 1);
        }
    }
    if c.n > 1 {
        cx.key(c.key());
    }
    cx.sample(c.text());
    Ok(())
}

pub fn probe_from(p: &Probe, ix: &dyn Index) -> Probe {
    Probe {
        qs: p.qs.clone(),
        ids: p.ids.clone(),
        plain: p.qs.iter().map(|(q, k, ef)| ix.search(*q, *k, *ef)).collect(),
        filt: p
            .qs
            .iter()
            .map(|(q, k, ef)| ix.search_filter(*q, *k, *ef, Some(&Filt::Ids(p.ids.clone()))))
            .collect(),
    }
}

// ---------------------------------------------------------------- C12

pub fn snapshot(d: &Path) -> BTreeMap<String, (u64, u64)> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            if let Ok(b) = std::fs::read(e.path()) {
                m.insert(e.file_name().to_string_lossy().into_owned(), (b.len() as u64, fnv(&b)));
            }
        }
    }
    m
}

pub fn c12(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = want_dump(&mut rng, "rand");
    while !KINDS[c.kind].name.contains('/') || KINDS[c.kind].name.contains("Ptr") || KINDS[c.kind].name.contains("Fn") || KINDS[c.kind].name.contains("CFFI") {
        c.kind = rng.below(KINDS.len());
    }
    c.n = c.n.clamp(2, 120);
    let sp = c.space();
    let (ix, list) = c.build(&*sp);
    let d = cx.fresh();
    let base = base_name(&mut rng);
    // a first, longer or shorter, dump under the same name
    {
        let mut c0 = c.clone();
        c0.n = if rng.chance(0.7) { (c.n * 3).min(300) } else { 1 };
        c0.nq = 0;
        c0.seed = seed ^ 0x77;
        let sp0 = c0.space();
        let (ix0, _) = c0.build(&*sp0);
        let b0 = dump_ok(&*ix0, &d, &base)?;
        must!(b0 == base, "dump of a new index asked under {base} is named {b0}");
    }
    let b = dump_ok(&*ix, &d, &base)?;
    must!(b == base, "dump of a new index asked under {base} is named {b}, files exist already");
    let g0 = ix.graph();
    let dp = parsed(&d, &b).map_err(|e| tag(e, "older dump of this name not replaced completely"))?;
    same_graph(&g0, &dp.pts, true, "dump replacing an older one")?;
    // another dump in the same directory
    let other = "other".to_string();
    {
        let mut c1 = c.clone();
        c1.n = rng.range(1, 20);
        c1.nq = 0;
        let sp1 = c1.space();
        let (ix1, _) = c1.build(&*sp1);
        dump_ok(&*ix1, &d, &other)?;
    }
    if kind == "collide" {
        // almost all numbers taken: a name drawn at random is often taken
        let free: Vec<usize> = (0..60).map(|_| rng.below(10000)).collect();
        for i in 0..10000 {
            if !free.contains(&i) {
                if let Err(e) = std::fs::write(d.join(format!("{base}-{i}.hnsw.data")), b"taken") {
                    inc!("scratch: {e}");
                }
                if i % 7 == 0 {
                    let _ = std::fs::write(d.join(format!("{base}-{i}.hnsw.graph")), b"taken");
                }
            }
        }
    }
    let th = match rng.below(4) {
        0 => 0,
        1 => 1,
        2 => c.n / 2,
        _ => c.n.saturating_sub(1),
    };
    let m = reload_ok(&*sp, &d, &base, How::Mmap(th))?;
    let gm = m.graph();
    let p0 = probe(&mut rng, &c, &*m, &list, 8);
    // the graph file is of no use once the index is loaded: the name is still taken by the mapped file
    if rng.chance(0.3) {
        let _ = std::fs::remove_file(dumpfile::paths(&d, &base).0);
        cx.count("graph_files_removed", 1);
    }
    if rng.chance(0.15) {
        let _ = std::fs::remove_file(dumpfile::paths(&d, &other).0);
    }
    let mut before = snapshot(&d);
    let mut made: Vec<String> = vec![];
    for r in 0..rng.range(3, 6) {
        let ask = match rng.below(5) {
            0 | 1 => base.clone(),
            2 => other.clone(),
            3 if !made.is_empty() => made[rng.below(made.len())].clone(),
            _ => format!("fresh{r}"),
        };
        let existed = before.contains_key(&format!("{ask}.hnsw.data"));
        let nb = dump_ok(&*m, &d, &ask)?;
        if existed {
            must!(nb != ask, "dump of a mapped index under {ask}, which exists, is reported under this name");
        } else {
            must!(nb == ask, "dump of a mapped index under the free name {ask} is named {nb}");
        }
        must!(
            !before.contains_key(&format!("{nb}.hnsw.data")),
            "dump of a mapped index took the name {nb} which exists"
        );
        let after = snapshot(&d);
        for (f, h) in &before {
            match after.get(f) {
                None => viol!("file {f} disappeared when dumping a mapped index under {ask}"),
                Some(x) => must!(x == h, "file {f} changed when dumping a mapped index under {ask}"),
            }
        }
        for f in after.keys() {
            must!(
                before.contains_key(f) || *f == format!("{nb}.hnsw.data") || *f == format!("{nb}.hnsw.graph"),
                "dump named {nb} also made the file {f}"
            );
        }
        let q = parsed(&d, &nb)?;
        same_graph(&gm, &q.pts, true, "dump of a mapped index")?;
        let how = if rng.chance(0.5) { How::Normal } else { How::Mmap(rng.below(c.n + 1)) };
        let r2 = reload_ok(&*sp, &d, &nb, how)?;
        same_graph(&gm, &r2.graph(), true, "reload of the dump of a mapped index")?;
        // mapped index untouched
        let gx = m.graph();
        must!(gx == gm, "mapped index changed by its own dump");
        same_answers(&p0, &*m, true, "mapped index after its dump", cx)?;
        before = after;
        made.push(nb);
        cx.events += 4 + before.len() as u64;
    }
    cx.key(c.key());
    cx.sample(format!("threshold {th} dumps {made:?} {}", c.text()));
    Ok(())
}

// ---------------------------------------------------------------- C13

pub fn c13(_kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let a = (idx as usize) % KINDS.len();
    let n = rng.range(1, 12);
    let dim = rng.range(1, 9);
    let c = Cfg {
        kind: a,
        n,
        nq: 8,
        dim,
        style: Style::Uniform,
        ..want_dump(&mut rng, "tiny")
    };
    let sp = c.space();
    let (ix, list) = c.build(&*sp);
    let d = cx.fresh();
    let b = dump_ok(&*ix, &d, "t")?;
    let g0 = ix.graph();
    let mut refused = 0;
    for o in 0..KINDS.len() {
        let mut r2 = Rng::new(seed ^ o as u64);
        let so = make(o, &mut r2, Style::Uniform, 4, dim.max(1));
        let same_t = so.tname() == sp.tname();
        let same_d = so.dname() == sp.dname();
        if o != a && same_t && same_d {
            continue;
        }
        let mut hows = vec![How::Normal, How::WithDist];
        if so.has_default() {
            hows.push(How::Mmap(0));
            hows.push(How::Mmap(rng.range(1, n + 1)));
        }
        for how in hows {
            let r = so.reload(&d, &b, how);
            cx.events += 1;
            if same_t && same_d {
                match r {
                    Err(e) => viol!("reload {how:?} of {} as itself refused: {e}", sp.name()),
                    Ok(r) => {
                        same_graph(&g0, &r.graph(), true, "reload with the right type")?;
                    }
                }
            } else {
                refused += 1;
                must!(
                    r.is_err(),
                    "a dump of {} / {} is reloaded {how:?} as {} / {}",
                    sp.tname(),
                    sp.dname(),
                    so.tname(),
                    so.dname()
                );
            }
        }
        let m = so.datamap(&d, &b);
        cx.events += 1;
        if same_t && !so.owned() {
            must!(m.is_ok(), "data map of a dump of {} refused for this type", sp.tname());
        } else {
            must!(m.is_err(), "data map of a dump of {} accepted for {}", sp.tname(), so.tname());
        }
        // the right one still works
        if o % 5 == 0 {
            let how = if sp.has_default() { How::Normal } else { How::WithDist };
            let r = reload_ok(&*sp, &d, &b, how)?;
            content(&*sp, &*r, &list)?;
        }
    }
    cx.count("refusals", refused);
    cx.key(hash_words(&[a as u64, idx / KINDS.len() as u64]));
    cx.sample(c.text());
    Ok(())
}

// ---------------------------------------------------------------- C14

struct Damaged<'a> {
    sp: &'a dyn Space,
    dir: &'a Path,
    base: &'a str,
    n: usize,
}

impl Damaged<'_> {
    fn all_refuse(&self, graph_damaged: bool, what: &str, full: bool, cx: &mut Ctx, rng: &mut Rng) -> R<()> {
        let mut hows: Vec<How> = vec![];
        if self.sp.has_default() {
            if full {
                hows.extend([How::Normal, How::Mmap(0), How::Mmap(1 + rng.below(self.n + 1)), How::WithDist]);
            } else {
                hows.push(*rng.pick(&[How::Normal, How::WithDist]));
                hows.push(if rng.chance(0.5) { How::Mmap(0) } else { How::Mmap(1 + rng.below(self.n + 1)) });
            }
        } else {
            hows.push(How::WithDist);
        }
        for how in hows {
            cx.events += 1;
            if let Ok(r) = self.sp.reload(self.dir, self.base, how) {
                viol!("{what}: reload {how:?} succeeds, {} points", r.nb_point());
            }
        }
        if graph_damaged {
            cx.events += 1;
            let how = *rng.pick(&[How::Normal, How::WithDist, How::Mmap(1)]);
            if let Ok(r) = reload_nodata(self.dir, self.base, how) {
                viol!("{what}: graph only reload {how:?} succeeds, {} points", r.nb_point());
            }
        }
        // may succeed or not, but must return
        let _ = self.sp.datamap(self.dir, self.base);
        Ok(())
    }
}

fn right_or_error(gp: &Path, h: &dumpfile::Header, what: &str) -> R<()> {
    if let Ok(s) = describe(gp) {
        let x = dumpfile::Header {
            mode: s.dumpmode,
            m: s.max_nb_connection,
            scale: s.level_scale,
            nb_layer: s.nb_layer,
            ef: s.ef,
            nb_point: s.nb_point,
            dim: s.dimension,
            dname: s.distname,
            tname: s.t_name,
        };
        must!(x == *h, "{what}: description is {x:?} instead of {h:?}");
    }
    Ok(())
}

pub fn c14(kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = want_dump(&mut rng, "tiny");
    c.dim = rng.range(1, 5);
    match kind {
        "every" => {
            c.kind = idx as usize % KINDS.len();
            c.n = rng.range(1, 5);
        }
        "pages" => {
            c.n = rng.range(60, 400);
            c.dim = rng.range(8, 100);
            c.p.efc = 20;
            c.p.m = rng.range(4, 16);
        }
        _ => {}
    }
    let sp = c.space();
    let (ix, _) = c.build(&*sp);
    let src = cx.fresh();
    let b = dump_ok(&*ix, &src, "s")?;
    let dp = parsed(&src, &b)?;
    let (gp, dpth) = dumpfile::paths(&src, &b);
    let (gb, db) = match (std::fs::read(&gp), std::fs::read(&dpth)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => inc!("cannot read the dump"),
    };
    let d = cx.fresh();
    let (g2, d2) = dumpfile::paths(&d, "t");
    let dm = Damaged {
        sp: &*sp,
        dir: &d,
        base: "t",
        n: c.n,
    };
    let put = |g: &[u8], dd: &[u8]| -> R<()> {
        if std::fs::write(&g2, g).is_err() || std::fs::write(&d2, dd).is_err() {
            inc!("scratch write");
        }
        Ok(())
    };
    let txt = c.text();
    match kind {
        "every" | "pages" => {
            let cuts = |len: usize, rng: &mut Rng| -> Vec<usize> {
                if kind == "every" {
                    (0..len).rev().collect()
                } else {
                    let mut v: Vec<usize> = Vec::new();
                    let mut p = 4096;
                    while p < len + 4096 {
                        for q in [p - 1, p, p + 1] {
                            if q < len {
                                v.push(q);
                            }
                        }
                        p += 4096;
                    }
                    // boundaries of buffers and random ones
                    for _ in 0..40 {
                        v.push(rng.below(len));
                    }
                    for k in 1..40 {
                        v.push(len.saturating_sub(k));
                    }
                    v.sort_unstable();
                    v.dedup();
                    if v.len() > 160 {
                        rng.shuffle(&mut v);
                        v.truncate(160);
                        v.sort_unstable();
                    }
                    v.into_iter().rev().collect()
                }
            };
            put(&gb, &db)?;
            let f = match std::fs::OpenOptions::new().write(true).open(&g2) {
                Ok(f) => f,
                Err(e) => inc!("{e}"),
            };
            for l in cuts(gb.len(), &mut rng) {
                if f.set_len(l as u64).is_err() {
                    inc!("set_len");
                }
                let w = format!("graph file of {} bytes cut at {l} ({txt})", gb.len());
                dm.all_refuse(true, &w, l % 8 == 0, cx, &mut rng)?;
                right_or_error(&g2, &dp.h, &w)?;
                cx.count("graph_cuts", 1);
            }
            drop(f);
            put(&gb, &db)?;
            let f = match std::fs::OpenOptions::new().write(true).open(&d2) {
                Ok(f) => f,
                Err(e) => inc!("{e}"),
            };
            for l in cuts(db.len(), &mut rng) {
                if f.set_len(l as u64).is_err() {
                    inc!("set_len");
                }
                let w = format!("data file of {} bytes cut at {l} ({txt})", db.len());
                dm.all_refuse(false, &w, true, cx, &mut rng)?;
                cx.count("data_cuts", 1);
            }
            if kind == "pages" {
                // both cut
                for _ in 0..20 {
                    let (x, y) = (rng.below(gb.len()), rng.below(db.len()));
                    put(&gb[..x], &db[..y])?;
                    dm.all_refuse(true, &format!("files cut at {x} and {y}"), false, cx, &mut rng)?;
                    cx.count("both_cuts", 1);
                }
            }
        }
        "mixed" => {
            // the data file of another dump
            let order: Vec<usize> = dp.pts.iter().map(|p| p.id).collect();
            for round in 0..6 {
                let mut c1 = c.clone();
                c1.seed = rng.next();
                match round % 3 {
                    0 => {}
                    1 => c1.n = rng.range(1, 8),
                    _ => c1.dim = rng.range(1, 6),
                }
                c1.lev = crate::ctl::Lev::Natural;
                let sp1 = c1.space();
                let (ix1, _) = c1.build(&*sp1);
                let o = cx.fresh();
                let b1 = dump_ok(&*ix1, &o, "o")?;
                let dp1 = parsed(&o, &b1)?;
                let order1: Vec<usize> = dp1.pts.iter().map(|p| p.id).collect();
                let begins = order1.len() >= order.len() && order1[..order.len()] == order[..];
                if begins && dp1.data_dim == dp.data_dim {
                    continue;
                }
                let (_, y) = dumpfile::paths(&o, &b1);
                let db1 = match std::fs::read(&y) {
                    Ok(b) => b,
                    _ => inc!("cannot read the dump"),
                };
                put(&gb, &db1)?;
                let w = format!("data file of another dump, ids {order1:?} dimension {} ({txt}, ids {order:?})", dp1.data_dim);
                dm.all_refuse(false, &w, true, cx, &mut rng)?;
                cx.count("others", 1);
                let _ = std::fs::remove_dir_all(&o);
            }
            // ids, positions and references altered
            let pts: Vec<usize> = dp.magics.iter().filter(|(f, o)| *f == 0 && gb[*o..*o + 4] == 0x000a678fu32.to_ne_bytes()).map(|m| m.1).collect();
            let recs: Vec<usize> = dp.magics.iter().filter(|(f, o)| *f == 1 && *o > 0).map(|m| m.1).collect();
            must!(pts.len() == c.n && recs.len() == c.n, "{} and {} records of {} points", pts.len(), recs.len(), c.n);
            let end = gb.len() - 13;
            for what in 0..7 {
                for _ in 0..2 {
                    let (mut g, mut dd) = (gb.clone(), db.clone());
                    let i = rng.below(c.n);
                    let mut graph_damaged = true;
                    let far = *rng.pick(&[c.n as i32, c.n as i32 + 1, 1 << 20, i32::MAX, -1, i32::MIN]);
                    let w = match what {
                        0 => {
                            let o = dp.pts[i].id ^ (1 << rng.below(64));
                            g[pts[i] + 4..pts[i] + 12].copy_from_slice(&o.to_ne_bytes());
                            graph_damaged = false;
                            "id altered in the graph file"
                        }
                        1 => {
                            let o = dp.pts[i].id ^ (1 << rng.below(64));
                            dd[recs[i] + 4..recs[i] + 12].copy_from_slice(&o.to_ne_bytes());
                            graph_damaged = false;
                            "id altered in the data file"
                        }
                        2 => {
                            g[pts[i] + 12] = g[pts[i] + 12].wrapping_add(rng.range(1, 255) as u8);
                            "layer of a point altered"
                        }
                        3 => {
                            g[pts[i] + 13..pts[i] + 17].copy_from_slice(&far.to_ne_bytes());
                            "rank of a point altered"
                        }
                        4 => {
                            let nb = usize::from_ne_bytes(g[pts[i] + 17..pts[i] + 25].try_into().unwrap());
                            if nb == 0 {
                                continue;
                            }
                            let size = 8 + 1 + 4 + 4;
                            let o = pts[i] + 25 + rng.below(nb) * size;
                            if rng.chance(0.5) {
                                g[o + 8] = rng.range(16, 255) as u8;
                            } else {
                                g[o + 9..o + 13].copy_from_slice(&far.to_ne_bytes());
                            }
                            "neighbour outside of the dump"
                        }
                        5 => {
                            if rng.chance(0.5) {
                                g[end + 8] = rng.range(16, 255) as u8;
                            } else {
                                g[end + 9..end + 13].copy_from_slice(&far.to_ne_bytes());
                            }
                            "entry point outside of the dump"
                        }
                        _ => {
                            let o = dp.data_dim ^ (1 << rng.below(64));
                            dd[4..12].copy_from_slice(&o.to_ne_bytes());
                            graph_damaged = false;
                            "dimension altered in the data file"
                        }
                    };
                    put(&g, &dd)?;
                    dm.all_refuse(graph_damaged, &format!("{w} ({txt})"), true, cx, &mut rng)?;
                    cx.count("references", 1);
                }
            }
        }
        _ => {
            // missing files
            put(&gb, &db)?;
            let _ = std::fs::remove_file(&g2);
            dm.all_refuse(true, "graph file missing", true, cx, &mut rng)?;
            put(&gb, &db)?;
            let _ = std::fs::remove_file(&d2);
            dm.all_refuse(false, "data file missing", true, cx, &mut rng)?;
            let _ = std::fs::remove_file(&g2);
            dm.all_refuse(true, "both files missing", true, cx, &mut rng)?;
            // altered magics
            let known: Vec<u32> = vec![0x002a6779, 0x000a676f, 0x000a678f, 0xa67f0000];
            for (f, off) in &dp.magics {
                for _ in 0..3 {
                    let (mut g, mut dd) = (gb.clone(), db.clone());
                    let v = if *f == 0 { &mut g } else { &mut dd };
                    let old = u32::from_ne_bytes(v[*off..*off + 4].try_into().unwrap());
                    let new = match rng.below(4) {
                        0 => 0,
                        1 => old ^ (1 << rng.below(32)),
                        2 => *rng.pick(&known),
                        _ => rng.next() as u32,
                    };
                    // descriptions of older versions have other magics
                    if new == old || (*off == 0 && *f == 0 && (new >> 8) == (old >> 8)) {
                        continue;
                    }
                    v[*off..*off + 4].copy_from_slice(&new.to_ne_bytes());
                    put(&g, &dd)?;
                    dm.all_refuse(
                        *f == 0,
                        &format!("magic at {off} of {} file altered to {new:x} ({txt})", if *f == 0 { "graph" } else { "data" }),
                        true,
                        cx,
                        &mut rng,
                    )?;
                    cx.count("magics", 1);
                    if *f == 0 && *off == 0 {
                        right_or_error(&g2, &dp.h, "description magic altered")?;
                    }
                }
            }
        }
    }
    // the whole one is accepted, in the same process
    put(&gb, &db)?;
    let how = if sp.has_default() { How::Normal } else { How::WithDist };
    let r = reload_ok(&*sp, &d, "t", how)?;
    same_graph(&dp.pts, &r.graph(), true, "whole dump after the damaged ones")?;
    cx.key(c.key());
    cx.sample(format!("graph {} bytes, data {} bytes, {txt}", gb.len(), db.len()));
    Ok(())
}

// ---------------------------------------------------------------- C15

struct Limit;
impl Limit {
    fn set(n: u64) -> Limit {
        let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe {
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
            r.rlim_cur = n;
            libc::setrlimit(libc::RLIMIT_FSIZE, &r);
        }
        Limit
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe {
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
            r.rlim_cur = r.rlim_max;
            libc::setrlimit(libc::RLIMIT_FSIZE, &r);
        }
    }
}

pub fn c15(kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = want_dump(&mut rng, "tiny");
    match kind {
        "every" => {
            c.kind = idx as usize % KINDS.len();
            c.n = rng.range(1, 4);
            c.dim = rng.range(1, 12);
        }
        "long" => longer(&mut rng, &mut c),
        _ => {
            c.n = rng.range(30, 300);
            c.dim = *rng.pick(&[2, 16, 64, 256]);
            c.p.efc = 20;
            c.p.m = rng.range(4, 16);
        }
    }
    let sp = c.space();
    let (mut ix, list) = c.build(&*sp);
    let txt = c.text();
    let d = cx.fresh();
    let b = dump_ok(&*ix, &d, "ref")?;
    let dp = parsed(&d, &b)?;
    let reloaded = rng.chance(0.25) && sp.has_default();
    if reloaded {
        ix = reload_ok(&*sp, &d, &b, if rng.chance(0.5) { How::Normal } else { How::Mmap(rng.below(c.n + 1)) })?;
    }
    let g0 = ix.graph();
    let p = probe(&mut rng, &c, &*ix, &list, 4);
    let (gl, dl) = (dp.graph_len, dp.data_len);
    let top = gl.max(dl);
    let mut limits: Vec<usize> = match kind {
        "every" => (0..=top).collect(),
        _ => {
            let mut v: Vec<usize> = (0..30).map(|_| rng.below(top)).collect();
            for x in [gl, dl] {
                for k in 0..4 {
                    v.push(x.saturating_sub(k));
                    v.push(x + k);
                }
                for k in [7, 20, 64, 300, 1000, 5000, 10000, 30000] {
                    v.push(x.saturating_sub(k));
                }
                let mut p = 8192;
                while p < x {
                    v.extend([p - 1, p, p + 1]);
                    p += 8192 * (1 + x / 80_000);
                }
            }
            v.sort_unstable();
            v.dedup();
            v
        }
    };
    if kind == "every" && limits.len() > 1500 {
        rng.shuffle(&mut limits);
        limits.truncate(1500);
    }
    let judge = |r: Result<String, String>, dd: &Path, fits: bool, what: &str, ix: &dyn Index| -> R<()> {
        match r {
            Ok(nb) => {
                let q = match dumpfile::parse(dd, &nb) {
                    Ok(q) => q,
                    Err(e) => viol!("{what}: dump reported as done, but {e} ({txt})"),
                };
                same_graph(&g0, &q.pts, true, what)?;
                must!(fits, "{what}: dump reported as done although files of {gl} and {dl} bytes do not fit");
                Ok(())
            }
            Err(e) => {
                must!(!fits, "{what}: dump fails although it fits: {e}");
                must!(ix.nb_point() == c.n, "{what}: index changed by a failed dump");
                Ok(())
            }
        }
    };
    let dd = cx.fresh();
    for (i, l) in limits.iter().enumerate() {
        let r = {
            let _l = Limit::set(*l as u64);
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ix.dump(&dd, "x")))
        };
        let r = match r {
            Ok(r) => r,
            Err(_) => viol!("dump panics with a file size limit of {l} bytes ({gl} and {dl} needed, {txt})"),
        };
        judge(r, &dd, *l >= top, &format!("file size limit {l} ({gl} and {dl} needed)"), &*ix)?;
        cx.events += 1;
        cx.count("limits", 1);
        if i % 64 == 0 || i + 1 == limits.len() {
            must!(ix.graph() == g0, "graph changed by failed dumps");
            same_answers(&p, &*ix, true, "after a failed dump", cx)?;
            let d3 = cx.fresh();
            let nb = dump_ok(&*ix, &d3, "later")?;
            let q = parsed(&d3, &nb)?;
            same_graph(&g0, &q.pts, true, "dump after failed ones")?;
            if sp.has_default() {
                let r = reload_ok(&*sp, &d3, &nb, How::Normal)?;
                same_graph(&g0, &r.graph(), true, "reload of a dump after failed ones")?;
            }
            let _ = std::fs::remove_dir_all(&d3);
        }
        // names accumulate when the index is reloaded
        if reloaded {
            if let Ok(rd) = std::fs::read_dir(&dd) {
                for e in rd.flatten() {
                    let _ = std::fs::remove_file(e.path());
                }
            }
        }
    }
    // full device under one of the files
    if Path::new("/dev/full").exists() {
        for which in ["graph", "data"] {
            let d4 = cx.fresh();
            if std::os::unix::fs::symlink("/dev/full", d4.join(format!("f.hnsw.{which}"))).is_err() {
                continue;
            }
            if reloaded {
                continue;
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ix.dump(&d4, "f")));
            match r {
                Err(_) => viol!("dump panics when the {which} file is on a full device"),
                Ok(Ok(_)) => viol!("dump reported as done although the {which} file is on a full device ({txt})"),
                Ok(Err(_)) => {}
            }
            cx.events += 1;
            cx.count("full_device", 1);
            let _ = std::fs::remove_file(d4.join(format!("f.hnsw.{which}")));
            let nb = dump_ok(&*ix, &d4, "f")?;
            let q = parsed(&d4, &nb)?;
            same_graph(&g0, &q.pts, true, "dump after a full device")?;
        }
    }
    // files that cannot be opened
    for which in ["no directory", "file as directory", "graph is a directory", "data is a directory"] {
        let d5 = cx.fresh();
        let (dir, graph, data) = (d5.join("sub"), d5.join("f.hnsw.graph"), d5.join("f.hnsw.data"));
        let target = match which {
            "no directory" => dir.clone(),
            "file as directory" => {
                let _ = std::fs::write(&dir, b"x");
                dir.clone()
            }
            "graph is a directory" => {
                let _ = std::fs::create_dir(&graph);
                d5.clone()
            }
            _ => {
                let _ = std::fs::create_dir(&data);
                d5.clone()
            }
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ix.dump(&target, "f")));
        cx.events += 1;
        cx.count("cannot_open", 1);
        match r {
            Err(_) => viol!("dump panics instead of returning an error: {which} ({txt})"),
            Ok(Ok(nb)) => {
                // an index reloaded chooses another name
                must!(nb != "f" && which == "data is a directory", "dump reported as done although: {which} ({txt})");
                let q = parsed(&target, &nb)?;
                same_graph(&g0, &q.pts, true, "dump under another name")?;
            }
            Ok(Err(_)) => {}
        }
        must!(ix.nb_point() == c.n && ix.graph() == g0, "index changed by a dump that failed: {which}");
    }
    cx.key(c.key());
    cx.sample(format!("graph {gl} bytes, data {dl} bytes, {} limits, {txt}", limits.len()));
    Ok(())
}

// ---------------------------------------------------------------- C16

pub fn c16(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    if kind == "levels" {
        return crate::pc::levels_after_reload(seed, cx);
    }
    let small = kind == "small";
    let mut c = rand_cfg(
        &mut rng,
        &Want {
            nmin: 2,
            nmax: if small { 100 } else { 400 },
            small,
            dumpable: true,
            distinct_ids: true,
            nq: 16,
            dimmax: 12,
            ..Default::default()
        },
    );
    if kind == "conc" {
        c.n = rng.range(4, 60);
        c.p.m = c.p.m.max(c.n);
    }
    let sp = c.space();
    let n0 = match rng.below(4) {
        0 => 1,
        1 => c.n - 1,
        _ => rng.range(1, c.n - 1),
    };
    let mut ix = c.create(&*sp);
    let list = c.list();
    insert_all(&mut ix, &list[..n0], if kind == "conc" { 2 } else { c.method }, c.threads, seed);
    let f0 = facts(&*ix);
    let mut done = n0;
    let cycles = rng.range(1, 3);
    let mut dirs = vec![];
    let txt = c.text();
    for cy in 0..cycles {
        let d = cx.fresh();
        let b = dump_ok(&*ix, &d, "r")?;
        let how = match rng.below(4) {
            0 => How::Normal,
            1 => How::WithDist,
            2 => How::Mmap(*rng.pick(&[0, 1, done])),
            _ => How::Mmap(rng.below(done + 2)),
        };
        let how = if sp.has_default() { how } else { How::WithDist };
        drop(ix);
        let files = snapshot(&d);
        levels(seed ^ cy as u64, c.lev);
        let w = format!("after reload {how:?} number {cy} of {done} points, {txt}");
        ix = reload_ok(&*sp, &d, &b, how)?;
        let e = if cy + 1 == cycles { c.n } else { rng.range(done, c.n) };
        let method = match kind {
            "conc" => *rng.pick(&[2, 3, 7, 8]),
            _ => rng.below(9) as u8,
        };
        inject(seed ^ cy as u64, disturb(&mut rng));
        insert_all(&mut ix, &list[done..e], method, c.threads, seed ^ 0x55 ^ cy as u64);
        cx.schedule();
        inject(seed, Inj::Off);
        let added = e - done;
        done = e;
        content(&*sp, &*ix, &list[..done]).map_err(|e| tag(e, &w))?;
        let g = ix.graph();
        let gf = graph(Some(&*sp), &*ix, &g).map_err(|e| tag(e, &w))?;
        cx.count("links", gf.links);
        cx.count("inserted_after_reload", added as u64);
        cx.events += done as u64 + gf.links;
        flat(&g, &*ix.flat(), "flattening after reload and insertion").map_err(|e| tag(e, &w))?;
        let t = Table::of(&*ix);
        for _ in 0..12 {
            let k = pick_k(&mut rng, done);
            let ef = pick_ef(&mut rng, done, k);
            let q = rng.below(c.n + c.nq);
            let a = ix.search(q, k, ef);
            answer_full(&*sp, &t, q, k, &a).map_err(|e| tag(e, &w))?;
            cx.events += 1;
        }
        if done <= c.p.m {
            let mut qs = c.queries();
            qs.extend(0..done.min(20));
            exact_all(&*sp, &*ix, done, &qs, &mut rng, cx).map_err(|e| tag(e, &w))?;
        }
        let f1 = facts(&*ix);
        must!(f1.m == f0.m && f1.efc == f0.efc && f1.scale == f0.scale, "parameters changed {w}");
        must!(snapshot(&d) == files, "files of the dump changed by insertions in the reloaded index, {w}");
        dirs.push(d);
    }
    // grown index goes through a dump again
    let g = ix.graph();
    let f = facts(&*ix);
    let p = probe(&mut rng, &c, &*ix, &list, 8);
    let d = cx.fresh();
    let b = dump_ok(&*ix, &d, "grown")?;
    let dp = parsed(&d, &b)?;
    same_graph(&g, &dp.pts, true, "dump of the grown index")?;
    let how = if sp.has_default() {
        *rng.pick(&[How::Normal, How::Mmap(0), How::Mmap(1)])
    } else {
        How::WithDist
    };
    let r = reload_ok(&*sp, &d, &b, how)?;
    same_facts(&f, &facts(&*r), true, "reload of the grown index")?;
    content(&*sp, &*r, &list).map_err(|e| tag(e, "reload of the grown index"))?;
    let ident = same_graph(&g, &r.graph(), true, "reload of the grown index")?;
    same_answers(&p, &*r, ident, "reload of the grown index", cx)?;
    let _ = HashMap::<u8, u8>::new();
    cx.key(c.key() ^ n0 as u64);
    cx.sample(format!("{n0} then {} points, {cycles} reloads, {txt}", c.n));
    Ok(())
}

// ---------------------------------------------------------------- C09, names of types of all lengths

/// names of 240 bytes and more, the number of digits does the rest
pub mod names_of_types_which_are_dumped_with_the_index_and_which_may_have_up_to_two_hundred_and_fifty_six_bytes {
    pub mod so_this_module_has_a_name_which_lets_the_last_digits_of_a_number_go_from_below_to_beyond_that_bound_ok {
        #[derive(Clone, Copy, Default)]
        pub struct AMetricOfAnyLength<const N: u128>;
        #[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
        pub struct AnElementOfAnyLen<const N: u128>(pub f32);
        #[derive(Clone, Copy, Default)]
        pub struct Plain;
        use hnsw_rs::prelude::Distance;
        impl<const N: u128> Distance<f32> for AMetricOfAnyLength<N> {
            fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
                a.iter().zip(b).map(|(x, y)| (x - y).abs()).sum()
            }
        }
        impl<const N: u128> Distance<AnElementOfAnyLen<N>> for Plain {
            fn eval(&self, a: &[AnElementOfAnyLen<N>], b: &[AnElementOfAnyLen<N>]) -> f32 {
                a.iter().zip(b).map(|(x, y)| (x.0 - y.0).abs()).sum()
            }
        }
    }
}
use hnsw_rs::prelude::{AnnT, Distance, Hnsw, HnswIo, Neighbour};
use names_of_types_which_are_dumped_with_the_index_and_which_may_have_up_to_two_hundred_and_fifty_six_bytes::so_this_module_has_a_name_which_lets_the_last_digits_of_a_number_go_from_below_to_beyond_that_bound_ok::{AMetricOfAnyLength, AnElementOfAnyLen, Plain};

fn named<T: El, D: Distance<T> + Default + Send + Sync + 'static>(rng: &mut Rng, f: impl Fn(f32) -> T, cx: &mut Ctx) -> R<()> {
    let n = rng.range(1, 30);
    let v: Vec<Vec<T>> = (0..n + 5).map(|_| (0..4).map(|_| f(rng.f() as f32)).collect()).collect();
    let (dn, tn) = (std::any::type_name::<D>().len(), std::any::type_name::<T>().len());
    let w = format!("names of {dn} (metric) and {tn} (element) bytes");
    let h: Hnsw<T, D> = Hnsw::new(rng.range(2, 20), 100, 16, 30, D::default());
    (0..n).for_each(|i| h.insert((&v[i], i)));
    let plain = |a: &[Neighbour]| a.iter().map(|n| (n.d_id, n.p_id.0, n.p_id.1, n.distance.to_bits())).collect::<Vec<_>>();
    let want: Vec<_> = v[n..].iter().map(|q| plain(&h.search(q, 5, 30))).collect();
    let d = cx.fresh();
    let r = h.file_dump(&d, "n");
    cx.events += 1;
    match r {
        Err(_) => {
            must!(dn > 256 || tn > 256, "the dump of an index with {w} fails");
            cx.count("dumps_refused_for_their_names", 1);
        }
        Ok(b) => {
            // what has been dumped without error can be reloaded
            let mut io = HnswIo::new(&d, &b);
            let g: Hnsw<T, D> = match io.load_hnsw() {
                Ok(g) => g,
                Err(e) => viol!("a dump with {w} succeeds and its reload fails: {e}"),
            };
            must!(g.get_nb_point() == n, "reload with {w}: {} points instead of {n}", g.get_nb_point());
            for (q, w0) in v[n..].iter().zip(&want) {
                let a = plain(&g.search(q, 5, 30));
                must!(&a == w0, "reload with {w}: {a:?} instead of {w0:?}");
                cx.events += 1;
            }
            cx.count("dumps_reloaded", 1);
        }
    }
    cx.key(hash_words(&[dn as u64, tn as u64]));
    Ok(())
}

pub fn c09_names(seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    macro_rules! both {
        ($($n:literal)*) => { $(
            named::<f32, AMetricOfAnyLength<$n>>(&mut rng, |x| x, cx)?;
            named::<AnElementOfAnyLen<$n>, Plain>(&mut rng, AnElementOfAnyLen::<$n>, cx)?;
        )* }
    }
    both!(1 1000000000000 10000000000000 100000000000000 1000000000000000 10000000000000000 100000000000000000 100000000000000000000000000000000000000);
    cx.sample(format!(
        "metric names {} to {}, element names {} to {}",
        std::any::type_name::<AMetricOfAnyLength<1>>().len(),
        std::any::type_name::<AMetricOfAnyLength<100000000000000000000000000000000000000>>().len(),
        std::any::type_name::<AnElementOfAnyLen<1>>().len(),
        std::any::type_name::<AnElementOfAnyLen<100000000000000000000000000000000000000>>().len()
    ));
    Ok(())
}
