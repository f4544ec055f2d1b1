//! C21 .. C23 : dumps of older formats, selection of neighbours, what is mapped.

use crate::cfg::*;
use crate::core::*;
use crate::ctl::*;
use crate::ctx::Ctx;
use crate::dumpfile;
use crate::oracle::*;
use crate::pa::{exact_all, tag};
use crate::pb::*;
use crate::rng::*;
use crate::{must, viol};
use std::collections::{HashMap, HashSet};
use std::path::Path;

// ---------------------------------------------------------------- C21

const MAGICS: [u32; 3] = [0x002a677f, 0x002a6771, 0x002a6779];

/// writes the dump (format 4) of dir/base as a dump of format 2 or 3 named out
fn as_format(sp: &dyn Space, dir: &Path, base: &str, out: &str, version: usize, list: &[(usize, usize)], dp: &dumpfile::Dump) -> R<()> {
    let (gp, dpth) = dumpfile::paths(dir, base);
    let (go, dout) = dumpfile::paths(dir, out);
    let g = std::fs::read(&gp).expect("graph file");
    let mut h = MAGICS[version - 2].to_ne_bytes().to_vec();
    h.extend_from_slice(&g[4..6]);
    // no level scale before format 4
    h.extend_from_slice(&g[14..]);
    std::fs::write(go, h).expect("scratch");
    let d = std::fs::read(&dpth).expect("data file");
    if version == 3 {
        std::fs::write(dout, d).expect("scratch");
        return Ok(());
    }
    let of: HashMap<usize, usize> = list.iter().map(|(i, id)| (*id, *i)).collect();
    let mut w = d[..12].to_vec();
    for p in &dp.pts {
        w.extend_from_slice(&0xa67f0000u32.to_ne_bytes());
        w.extend_from_slice(&p.id.to_ne_bytes());
        let b = sp.vbincode(of[&p.id]);
        w.extend_from_slice(&b.len().to_ne_bytes());
        w.extend_from_slice(&b);
    }
    std::fs::write(dout, w).expect("scratch");
    Ok(())
}

pub fn c21(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = want_dump(&mut rng, kind);
    // these formats do not tell the level scale, the default one is meant
    c.p.scale = None;
    let sp = c.space();
    let (ix, list) = c.build(&*sp);
    let g0 = ix.graph();
    let f0 = facts(&*ix);
    let p = probe(&mut rng, &c, &*ix, &list, 8);
    let d = cx.fresh();
    let base = dump_ok(&*ix, &d, "now")?;
    let dp = parsed(&d, &base)?;
    let txt = c.text();
    for version in [2usize, 3] {
        let old = format!("old{version}");
        as_format(&*sp, &d, &base, &old, version, &list, &dp)?;
        let (gp, dpath) = dumpfile::paths(&d, &old);
        // description
        match describe(&gp) {
            Err(e) => viol!("description of a dump of format {version}: {e}"),
            Ok(s) => {
                must!(s.format_version == version, "dump of format {version} described as of format {}", s.format_version);
                must!(
                    s.max_nb_connection == dp.h.m && s.nb_layer == dp.h.nb_layer && s.ef == dp.h.ef,
                    "parameters of the description of format {version}: M {} layers {} ef {} instead of {} {} {}",
                    s.max_nb_connection,
                    s.nb_layer,
                    s.ef,
                    dp.h.m,
                    dp.h.nb_layer,
                    dp.h.ef
                );
                must!(
                    s.nb_point == dp.h.nb_point && s.dimension == dp.h.dim && s.distname == dp.h.dname && s.t_name == dp.h.tname,
                    "description of format {version}: {} points, dimension {}, {} {}",
                    s.nb_point,
                    s.dimension,
                    s.distname,
                    s.t_name
                );
            }
        }
        let mut hows = vec![How::WithDist];
        if sp.has_default() {
            hows.push(How::Normal);
            hows.push(How::Mmap(0));
            hows.push(How::Mmap(rng.range(1, c.n + 1)));
        }
        for how in hows {
            let w = format!("reload {how:?} of format {version}");
            let mut r = match sp.reload(&d, &old, how) {
                Ok(r) => r,
                Err(e) => viol!("{w} fails: {e} on {txt}"),
            };
            same_facts(&f0, &facts(&*r), true, &w)?;
            content(&*sp, &*r, &list).map_err(|e| tag(e, &w))?;
            let g1 = r.graph();
            let ident = same_graph(&g0, &g1, true, &w)?;
            same_answers(&p, &*r, ident, &w, cx)?;
            cx.events += g1.len() as u64;
            if rng.chance(0.4) {
                // goes on, and dumps in the present format
                let d2 = cx.fresh();
                let b2 = dump_ok(&*r, &d2, "new")?;
                let dp2 = parsed(&d2, &b2).map_err(|e| tag(e, "dump of an index reloaded from an older format"))?;
                same_graph(&g0, &dp2.pts, true, "dump of an index reloaded from an older format")?;
                let mut h2 = dp2.h.clone();
                h2.mode = dp.h.mode;
                must!(h2 == dp.h, "header {:?} after a reload of format {version}, instead of {:?}", dp2.h, dp.h);
                let r2 = reload_ok(&*sp, &d2, &b2, How::WithDist)?;
                same_graph(&g0, &r2.graph(), true, "reload after an older format")?;
                // and can grow
                let extra: Vec<(usize, usize)> = (0..c.nq.min(6)).map(|k| (c.n + k, 9_000_000_000 + k)).collect();
                insert_all(&mut r, &extra, rng.below(9) as u8, 3, seed);
                let mut all = list.clone();
                all.extend_from_slice(&extra);
                content(&*sp, &*r, &all).map_err(|e| tag(e, &w))?;
                let g = r.graph();
                graph(Some(&*sp), &*r, &g).map_err(|e| tag(e, &w))?;
                if all.len() <= c.p.m {
                    exact_all(&*sp, &*r, all.len(), &c.queries(), &mut rng, cx)?;
                }
            }
        }
        // graph only
        let r = match reload_nodata(&d, &old, *rng.pick(&[How::Normal, How::WithDist])) {
            Ok(r) => r,
            Err(e) => viol!("graph only reload of format {version} fails: {e}"),
        };
        same_facts(&f0, &facts(&*r), false, "graph only reload of an older format")?;
        same_graph(&g0, &r.graph(), false, "graph only reload of an older format")?;
        drop(r);
        // data map: from format 3 only
        if version == 3 {
            let order: Vec<usize> = dp.pts.iter().map(|p| p.id).collect();
            cx.events += datamap_ok(&*sp, &d, &old, &list, &order, "data map of format 3")?;
        } else {
            must!(sp.datamap(&d, &old).is_err(), "data map of a dump of format 2 is not refused");
        }
        // damaged: refused
        let (gb, db) = (std::fs::read(&gp).expect("graph"), std::fs::read(&dpath).expect("data"));
        for _ in 0..6 {
            let of_graph = rng.chance(0.5);
            let (path, b) = if of_graph { (&gp, &gb) } else { (&dpath, &db) };
            let cut = match rng.below(3) {
                0 => b.len() - 1 - rng.below(b.len().min(40)),
                1 => rng.below(b.len().min(120)),
                _ => rng.below(b.len()),
            };
            std::fs::write(path, &b[..cut]).expect("scratch");
            let how = if sp.has_default() { *rng.pick(&[How::Normal, How::WithDist, How::Mmap(0)]) } else { How::WithDist };
            let what = if of_graph { "graph" } else { "data" };
            match sp.reload(&d, &old, how) {
                Err(_) => {}
                Ok(_) => viol!("{what} file of format {version} cut at {cut} of {}: reload {how:?} succeeds", b.len()),
            }
            cx.events += 1;
            std::fs::write(path, b).expect("scratch");
        }
    }
    if c.n > 1 {
        cx.key(c.key());
    }
    cx.sample(txt);
    Ok(())
}

// ---------------------------------------------------------------- C22

fn lists(g: &[GPt]) -> HashMap<Pid, &GPt> {
    g.iter().map(|p| (p.pid, p)).collect()
}

/// points reached from one in a layer
fn reached(m: &HashMap<Pid, &GPt>, from: Pid, l: usize) -> HashSet<Pid> {
    let mut s = HashSet::new();
    let mut todo = vec![from];
    s.insert(from);
    while let Some(p) = todo.pop() {
        for n in &m[&p].nb[l] {
            if s.insert(n.pid) {
                todo.push(n.pid);
            }
        }
    }
    s
}

pub fn c22(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = rand_cfg(
        &mut rng,
        &Want {
            nmin: 2,
            nmax: if kind == "more" { 160 } else { 60 },
            nq: 1,
            serial: true,
            dimmax: 12,
            ..Default::default()
        },
    );
    c.p.m = *rng.pick(&[1, 2, 2, 3, 3, 4, 5, 6, 8, 12]);
    c.p.extend = rng.chance(0.4);
    c.p.keep = rng.chance(0.4);
    c.p.efc = match rng.below(5) {
        0 => rng.range(1, 3),
        1 => 2 * c.p.m,
        2 => rng.range(1, c.n),
        _ => c.n + rng.below(20),
    };
    let sp = c.space();
    let mut ix = c.create(&*sp);
    let list = c.list();
    let m = c.p.m;
    let efc = c.p.efc;
    let mut g = ix.graph();
    let mut chosen_by_rule = 0u64;
    let mut complete = 0u64;
    // sometimes it goes on after a reload
    let reload_at = if c.p.max_layer == 16 && rng.chance(0.25) { rng.range(1, c.n) } else { usize::MAX };
    for (k, x) in list.iter().enumerate() {
        if k == reload_at {
            let d = cx.fresh();
            let b = dump_ok(&*ix, &d, "r")?;
            let how = match rng.below(3) {
                _ if !sp.has_default() => How::WithDist,
                0 => How::Normal,
                1 => How::WithDist,
                _ => How::Mmap(rng.below(c.n)),
            };
            ix = reload_ok(&*sp, &d, &b, how)?;
            // pruned candidates are kept only when this is asked for
            ix.set_extend(c.p.extend);
            if c.p.keep {
                ix.set_keep(true);
            }
            g = ix.graph();
            cx.count("reloads", 1);
        }
        insert_all(&mut ix, std::slice::from_ref(x), c.method, 2, seed ^ k as u64);
        let g1 = ix.graph();
        let old = lists(&g);
        let new = lists(&g1);
        must!(g1.len() == g.len() + 1, "{} points after the insertion of one into {}", g1.len(), g.len());
        let p = match g1.iter().find(|q| !old.contains_key(&q.pid)) {
            Some(p) => p,
            None => viol!("no new position after an insertion"),
        };
        must!(p.id == x.1, "new point has id {} instead of {}", p.id, x.1);
        let top = g.iter().map(|q| q.pid.0).max();
        let d_to = |q: &Pid| sp.dist_bb(&p.bytes, &old[q].bytes);
        let lower = |a: f32, b: f32| (a as f64) < (b as f64) * (1. - 1e-4) - 1e-5;
        if let Some(top) = top {
            for l in 0..=p.pid.0 as usize {
                let cap = if l == 0 { 2 * m } else { m };
                let sel = &p.nb[l];
                let ctx = || format!("layer {l} of point {:?}, number {k}, M {m} width {efc} extend {} keep {}", p.pid, c.p.extend, c.p.keep);
                must!(!sel.is_empty(), "no neighbour chosen: {}", ctx());
                must!(sel.len() <= cap, "{} neighbours chosen: {}", sel.len(), ctx());
                // how many candidates the search must have found, when it does not depend on its entry
                let mut cand: Option<HashSet<Pid>> = None;
                if l <= top as usize {
                    let mut it = g.iter().filter(|q| q.pid.0 as usize >= l);
                    let first = reached(&old, it.next().expect("a member").pid, l);
                    if it.all(|q| {
                        let r = reached(&old, q.pid, l);
                        r.len() == first.len() && r == first
                    }) {
                        cand = Some(first);
                    }
                }
                let extend = c.p.extend && l == 0;
                if let Some(cs) = &cand {
                    let nc = cs.len().min(efc);
                    let by_rule = nc > cap || extend;
                    if !by_rule {
                        must!(sel.len() == nc, "{} of {nc} candidates chosen, {cap} allowed: {}", sel.len(), ctx());
                    }
                    if c.p.keep {
                        must!(
                            sel.len() >= nc.min(cap),
                            "pruned candidates are kept, {} of {nc} candidates chosen, {cap} allowed: {}",
                            sel.len(),
                            ctx()
                        );
                    }
                    if by_rule && !c.p.keep {
                        // diverse
                        for (j, b) in sel.iter().enumerate() {
                            for a in &sel[..j] {
                                let dab = sp.dist_bb(&old[&b.pid].bytes, &old[&a.pid].bytes);
                                must!(
                                    !lower(dab, b.d),
                                    "neighbour {:?} chosen at {} is at {dab} of the neighbour {:?} chosen at {}: {}",
                                    b.pid,
                                    b.d,
                                    a.pid,
                                    a.d,
                                    ctx()
                                );
                                cx.events += 1;
                            }
                        }
                        chosen_by_rule += 1;
                    }
                    if efc >= cs.len() {
                        // everything was seen
                        complete += 1;
                        let nearest = cs.iter().map(|q| d_to(q)).fold(f32::INFINITY, f32::min);
                        must!(
                            !lower(nearest, sel[0].d),
                            "nearest candidate at {nearest} not chosen, first at {}: {}",
                            sel[0].d,
                            ctx()
                        );
                        if sel.len() < cap && by_rule && !c.p.keep {
                            for q in cs {
                                if sel.iter().any(|s| s.pid == *q) {
                                    continue;
                                }
                                let dq = d_to(q);
                                must!(
                                    sel.iter().any(|s| !lower(dq, sp.dist_bb(&old[q].bytes, &old[&s.pid].bytes)) ),
                                    "candidate {q:?} at {dq} left out though there is room ({} of {cap}) and it is nearer to the point than to any chosen: {}",
                                    sel.len(),
                                    ctx()
                                );
                                cx.events += 1;
                            }
                        }
                    }
                }
                // reverse links, and nothing else
                for q in &g {
                    let a = &q.nb[l];
                    let b = &new[&q.pid].nb[l];
                    let s = sel.iter().find(|s| s.pid == q.pid);
                    match s {
                        None => must!(a == b, "list of {:?} changed by the insertion of a point not linked to it: {}", q.pid, ctx()),
                        Some(s) => {
                            let mut want = a.clone();
                            want.push(Nb { id: p.id, pid: p.pid, d: s.d });
                            want.sort_by(|x, y| x.d.total_cmp(&y.d));
                            let far = want.last().unwrap().d;
                            let over = want.len() > cap;
                            must!(
                                b.len() == want.len().min(cap),
                                "list of {:?} has {} entries, {} before, {cap} allowed: {}",
                                q.pid,
                                b.len(),
                                a.len(),
                                ctx()
                            );
                            let ids: HashSet<Pid> = b.iter().map(|x| x.pid).collect();
                            for x in &want {
                                if !ids.contains(&x.pid) {
                                    must!(
                                        over && x.d >= far,
                                        "neighbour {:?} at {} missing in list of {:?} after the insertion (farthest {far}): {}",
                                        x.pid,
                                        x.d,
                                        q.pid,
                                        ctx()
                                    );
                                }
                            }
                            must!(
                                b.iter().all(|x| want.iter().any(|y| y == x)),
                                "list of {:?} has an entry which is neither old nor the new point: {}",
                                q.pid,
                                ctx()
                            );
                        }
                    }
                    cx.events += 1;
                }
            }
            // layers above the level of the new point are left alone
            for q in &g {
                for l in p.pid.0 as usize + 1..16 {
                    must!(
                        q.nb[l] == new[&q.pid].nb[l],
                        "list of {:?} in layer {l} changed by the insertion of {:?}",
                        q.pid,
                        p.pid
                    );
                }
            }
        }
        g = g1;
    }
    cx.count("lists_chosen_by_rule", chosen_by_rule);
    cx.count("complete_searches", complete);
    if chosen_by_rule + complete > 0 {
        cx.key(c.key());
    }
    cx.sample(c.text());
    Ok(())
}

// ---------------------------------------------------------------- C23

/// address ranges where a file is mapped in this process
fn mapped(path: &Path) -> Vec<(usize, usize)> {
    let want = std::fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
    let want = want.to_string_lossy().into_owned();
    let mut v = vec![];
    for line in std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines() {
        let p: &str = line.splitn(6, ' ').nth(5).unwrap_or("").trim();
        if p == want {
            let mut it = line.split(' ').next().unwrap_or("").split('-').map(|x| usize::from_str_radix(x, 16).unwrap_or(0));
            v.push((it.next().unwrap_or(0), it.next().unwrap_or(0)));
        }
    }
    v
}

pub fn c23(kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let mut c = want_dump(&mut rng, kind);
    if c.dim == 0 {
        c.dim = 1;
    }
    let sp = c.space();
    let (ix, list) = c.build(&*sp);
    let p = probe(&mut rng, &c, &*ix, &list, 8);
    let d = cx.fresh();
    let base = dump_ok(&*ix, &d, "m")?;
    let (gp, dp) = dumpfile::paths(&d, &base);
    let n = c.n;
    let mut ths = vec![0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, rng.range(0, n)];
    rng.shuffle(&mut ths);
    if sp.has_default() {
        for t in ths.into_iter().take(5) {
            let w = format!("mapped with threshold {t} of {n} points");
            let r = reload_ok(&*sp, &d, &base, How::Mmap(t))?;
            let maps = mapped(&dp);
            let ad = r.addresses();
            must!(ad.len() == n, "{w}: {} points", ad.len());
            let inside = |a: usize, s: usize| maps.iter().any(|(x, y)| a >= *x && a + s <= *y);
            let mut in_mem = 0;
            let mut low_mem = usize::MAX;
            let mut high_map = 0;
            for (pid, a, s) in &ad {
                if *s == 0 {
                    continue;
                }
                if inside(*a, *s) {
                    high_map = high_map.max(pid.0 as usize);
                    cx.count("vectors_mapped", 1);
                } else {
                    in_mem += 1;
                    low_mem = low_mem.min(pid.0 as usize);
                    cx.count("vectors_in_memory", 1);
                }
                cx.events += 1;
            }
            if sp.owned() {
                must!(in_mem == ad.iter().filter(|x| x.2 > 0).count(), "{w}: a vector whose elements own memory is mapped");
            }
            if sp.align() <= 4 && !sp.owned() {
                must!(in_mem <= t, "{w}: {in_mem} vectors in memory");
                must!(
                    in_mem == 0 || low_mem >= high_map,
                    "{w}: a vector of layer {low_mem} is in memory, one of layer {high_map} is mapped"
                );
                if t == 0 && ad.iter().any(|x| x.2 > 0) {
                    must!(!maps.is_empty(), "{w}: file not mapped");
                }
            }
            drop(r);
            must!(mapped(&dp).is_empty(), "{w}: file still mapped after the drop of index and reloader");
            cx.count("mapped_reloads", 1);
        }
    }
    // in memory : files are of no use any more
    let hows: &[How] = if sp.has_default() { &[How::Normal, How::WithDist] } else { &[How::WithDist] };
    for how in hows {
        let w = format!("reload {how:?} in memory");
        let (gb, db) = (std::fs::read(&gp).expect("graph"), std::fs::read(&dp).expect("data"));
        let r = reload_ok(&*sp, &d, &base, *how)?;
        // (a reloader used before with mapping keeps it)
        must!(reusing() || mapped(&dp).is_empty() && mapped(&gp).is_empty(), "{w}: file mapped");
        let maps = mapped(&dp);
        for (pid, a, s) in r.addresses() {
            must!(
                s == 0 || !maps.iter().any(|(x, y)| a >= *x && a < *y),
                "{w}: the vector of {pid:?} is in the mapped file"
            );
        }
        let g = r.graph();
        let pr = probe_from(&p, &*r);
        match rng.below(3) {
            0 => {
                std::fs::write(&dp, vec![0xa5u8; db.len()]).expect("scratch");
                std::fs::write(&gp, vec![0x5au8; gb.len()]).expect("scratch");
            }
            1 => {
                std::fs::write(&dp, b"").expect("scratch");
                std::fs::write(&gp, b"").expect("scratch");
            }
            _ => {
                std::fs::remove_file(&dp).expect("scratch");
                std::fs::remove_file(&gp).expect("scratch");
            }
        }
        must!(r.graph() == g, "{w}: index changed with the files");
        content(&*sp, &*r, &list).map_err(|e| tag(e, &w))?;
        same_answers(&pr, &*r, true, &w, cx)?;
        cx.events += g.len() as u64;
        drop(r);
        std::fs::write(&dp, &db).expect("scratch");
        std::fs::write(&gp, &gb).expect("scratch");
    }
    if c.n > 1 {
        cx.key(c.key());
    }
    cx.sample(c.text());
    Ok(())
}
