//! C28 dumps, reloads, data maps and descriptions by several threads at the same time.

use crate::cfg::*;
use crate::core::*;
use crate::ctl::*;
use crate::ctx::Ctx;
use crate::dumpfile;
use crate::oracle::*;
use crate::pa::{disturb, tag};
use crate::pb::*;
use crate::rng::*;
use crate::{inc, must, viol};
use std::path::{Path, PathBuf};

/// what one mode of reload gives when nothing else runs
struct Ref {
    how: How,
    g: Vec<GPt>,
    f: Facts,
    p: Probe,
}

/// an index, its dump in the shared directory, and what is known of both
struct Subject {
    c: Cfg,
    sp: Box<dyn Space>,
    ix: Box<dyn Index>,
    list: Vec<(usize, usize)>,
    base: String,
    g: Vec<GPt>,
    p: Probe,
    order: Vec<usize>,
    head: dumpfile::Header,
    gb: Vec<u8>,
    db: Vec<u8>,
    refs: Vec<Ref>,
    /// mapped reload shared by the threads, and the files of its dump made alone
    mapped: Option<(Box<dyn Index>, Vec<u8>, Vec<u8>)>,
}

fn subject(rng: &mut Rng, d: &Path, base: &str, cx: &mut Ctx) -> R<Subject> {
    let mut c = want_dump(rng, "any");
    c.n = c.n.min(120);
    let sp = c.space();
    let (ix, list) = c.build(&*sp);
    let b = dump_ok(&*ix, d, base)?;
    must!(b == base, "dump of a new index asked under {base} is named {b}");
    let dp = parsed(d, base)?;
    let g = ix.graph();
    same_graph(&g, &dp.pts, true, "dump made alone")?;
    let p = probe(rng, &c, &*ix, &list, 6);
    let (gp, dpath) = dumpfile::paths(d, base);
    let (gb, db) = match (std::fs::read(&gp), std::fs::read(&dpath)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => inc!("scratch"),
    };
    let mut hows = vec![How::WithDist];
    if sp.has_default() {
        hows.push(How::Normal);
        if !sp.owned() {
            hows.push(How::Mmap(0));
            hows.push(How::Mmap(rng.range(1, c.n.max(2))));
        }
    }
    let mut refs = vec![];
    for how in hows {
        let r = reload_ok(&*sp, d, base, how)?;
        refs.push(Ref { how, g: r.graph(), f: facts(&*r), p: probe_from(&p, &*r) });
    }
    let mapped = if sp.has_default() && !sp.owned() {
        let m = reload_ok(&*sp, d, base, How::Mmap(0))?;
        let o = cx.fresh();
        let b = dump_ok(&*m, &o, "alone")?;
        let (x, y) = dumpfile::paths(&o, &b);
        match (std::fs::read(&x), std::fs::read(&y)) {
            (Ok(x), Ok(y)) => Some((m, x, y)),
            _ => viol!("dump of a mapped index reported as done has no files"),
        }
    } else {
        None
    };
    let order = dp.pts.iter().map(|p| p.id).collect();
    Ok(Subject { c, sp, ix, list, base: base.to_string(), g, p, order, head: dp.h, gb, db, refs, mapped })
}

/// a dump made among others is the one made alone
fn same_files(d: &Path, b: &str, gb: &[u8], db: &[u8], what: &str) -> R<()> {
    let (gp, dp) = dumpfile::paths(d, b);
    match (std::fs::read(&gp), std::fs::read(&dp)) {
        (Ok(x), Ok(y)) => {
            must!(y == db, "{what}: data file has {} bytes or other ones, the dump made alone has {}", y.len(), db.len());
            must!(x == gb, "{what}: graph file has {} bytes or other ones, the dump made alone has {}", x.len(), gb.len());
            Ok(())
        }
        (x, y) => viol!("{what}: files of a dump reported as done cannot be read: {:?} {:?}", x.err(), y.err()),
    }
}

fn work(t: usize, seed: u64, subs: &[Subject], abs: &Path, rel: &Path, steps: usize, cx: &mut Ctx) -> R<Vec<String>> {
    let mut rng = Rng::new(seed);
    let mut left = vec![];
    let mut kept: Vec<(Box<dyn Index>, usize, usize)> = vec![];
    for step in 0..steps {
        let si = rng.below(subs.len());
        let s = &subs[si];
        let d: &Path = if rng.chance(0.5) { abs } else { rel };
        match rng.below(12) {
            0..=3 => {
                let ri = rng.below(s.refs.len());
                let r = &s.refs[ri];
                let what = format!("reload {:?} of {} among others", r.how, s.base);
                let x = reload_ok(&*s.sp, d, &s.base, r.how).map_err(|e| tag(e, &what))?;
                same_facts(&r.f, &facts(&*x), true, &what)?;
                content(&*s.sp, &*x, &s.list).map_err(|e| tag(e, &what))?;
                let ident = same_graph(&r.g, &x.graph(), true, &what)?;
                same_answers(&r.p, &*x, ident, &what, cx)?;
                cx.events += r.g.len() as u64;
                cx.count("reloads", 1);
                if rng.chance(0.4) {
                    kept.push((x, si, ri));
                }
            }
            4 | 5 => {
                // own directory, or own name in the shared one
                let own = rng.chance(0.5);
                let dir: PathBuf = if own { cx.fresh() } else { d.to_path_buf() };
                let name = if own { s.base.clone() } else { format!("t{t}-{step}") };
                let b = dump_ok(&*s.ix, &dir, &name)?;
                must!(b == name, "dump asked under {name} is named {b}");
                same_files(&dir, &b, &s.gb, &s.db, "dump among others")?;
                cx.count("dumps", 1);
                cx.events += s.g.len() as u64;
                if !own {
                    left.push(b);
                }
            }
            6 => {
                cx.events += datamap_ok(&*s.sp, d, &s.base, &s.list, &s.order, "data map among others")?;
                cx.count("data_maps", 1);
            }
            7 => {
                let (gp, _) = dumpfile::paths(d, &s.base);
                match describe(&gp) {
                    Err(e) => viol!("description of a complete dump among others: {e}"),
                    Ok(x) => must!(
                        x.nb_point == s.head.nb_point
                            && x.distname == s.head.dname
                            && x.t_name == s.head.tname
                            && x.dimension == s.head.dim
                            && x.ef == s.head.ef
                            && x.max_nb_connection == s.head.m
                            && x.nb_layer == s.head.nb_layer
                            && x.level_scale == s.head.scale,
                        "description among others is not the header {:?}",
                        s.head
                    ),
                }
                cx.events += 1;
            }
            8 => {
                same_answers(&s.p, &*s.ix, true, "index searched while dumped", cx)?;
                if let Some((m, _, _)) = &s.mapped {
                    let r = s.refs.iter().find(|r| matches!(r.how, How::Mmap(0))).expect("mapped");
                    same_answers(&r.p, &**m, true, "mapped index searched while its files are read", cx)?;
                }
            }
            9 => {
                let fl = s.ix.flat();
                cx.events += flat(&s.g, &*fl, "flattened while dumped")?;
                same_graph(&s.g, &s.ix.graph(), true, "graph read while dumped")?;
            }
            _ => {
                // the shared mapped index, under a name of its own where files exist
                let (m, gb, db) = match &s.mapped {
                    Some(m) => m,
                    None => continue,
                };
                let taken = rng.chance(0.6);
                let name = format!("m{t}-{step}");
                let (gp, dp) = dumpfile::paths(d, &name);
                if taken {
                    if std::fs::write(&dp, b"taken").is_err() || std::fs::write(&gp, b"taken").is_err() {
                        inc!("scratch");
                    }
                    left.push(name.clone());
                }
                let b = dump_ok(&**m, d, &name)?;
                must!((b == name) != taken, "mapped dump asked under {name} (taken: {taken}) is named {b}");
                if taken {
                    must!(
                        std::fs::read(&dp).ok().as_deref() == Some(b"taken") && std::fs::read(&gp).ok().as_deref() == Some(b"taken"),
                        "mapped dump overwrote files of the name asked"
                    );
                }
                same_files(d, &b, gb, db, "dump of a mapped index among others")?;
                left.push(b);
                cx.count("mapped_dumps", 1);
                cx.events += s.g.len() as u64;
            }
        }
        // an index kept from before, maybe dropped now
        if !kept.is_empty() && rng.chance(0.5) {
            let i = rng.below(kept.len());
            let (x, a, b) = kept.swap_remove(i);
            let r = &subs[a].refs[b];
            let what = "index reloaded earlier";
            let ident = same_graph(&r.g, &x.graph(), true, what)?;
            same_answers(&r.p, &*x, ident, what, cx)?;
        }
    }
    Ok(left)
}

pub fn c28(_kind: &str, seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed);
    let d = cx.fresh();
    let parent = d.parent().unwrap().to_path_buf();
    let name = PathBuf::from(d.file_name().unwrap());
    let nsub = rng.range(1, 3);
    let mut subs = vec![];
    for i in 0..nsub {
        subs.push(subject(&mut rng, &d, ["a", "b.c", "a-1"][i], cx)?);
    }
    let _g = Cwd::enter(&parent);
    let cwd = std::env::current_dir().expect("cwd");
    let before = snapshot(&d);
    let nt = rng.range(2, 6);
    let steps = rng.range(2, 7);
    inject(seed, disturb(&mut rng));
    let mut ctxs: Vec<Ctx> = (0..nt)
        .map(|t| {
            let p = cx.dir.join(format!("t{t}"));
            let _ = std::fs::create_dir_all(&p);
            Ctx::new(p, cx.thorough)
        })
        .collect();
    let gate = std::sync::Barrier::new(nt);
    let res: Vec<R<Vec<String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = ctxs
            .iter_mut()
            .enumerate()
            .map(|(t, c)| {
                let (subs, d, name, gate) = (&subs, &d, &name, &gate);
                s.spawn(move || {
                    gate.wait();
                    work(t, seed ^ (t as u64 + 1).wrapping_mul(0x9E37_79B9), subs, d, name, steps, c)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(r) => r,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                    viol!("an operation on files panics among others: {}", m.unwrap_or_default())
                }
            })
            .collect()
    });
    inject(seed, Inj::Off);
    let mut left = vec![];
    for r in res {
        left.extend(r?);
    }
    for c in ctxs {
        cx.events += c.events;
        for (k, v) in c.counts {
            cx.count(&k, v);
        }
        let _ = std::fs::remove_dir_all(&c.dir);
    }
    must!(
        std::env::current_dir().ok().as_ref() == Some(&cwd),
        "the working directory is {:?} after operations on files, it was {:?}",
        std::env::current_dir().ok(),
        cwd
    );
    // what was there is as it was, and nothing else is left than what was asked
    let after = snapshot(&d);
    for (k, v) in &before {
        must!(after.get(k) == Some(v), "file {k} only read is changed or gone");
    }
    for k in after.keys() {
        let asked = k
            .strip_suffix(".hnsw.graph")
            .or_else(|| k.strip_suffix(".hnsw.data"))
            .is_some_and(|b| left.iter().any(|l| l == b));
        must!(before.contains_key(k) || asked, "file {k} left behind");
    }
    left.sort_unstable();
    left.dedup();
    must!(after.len() == before.len() + 2 * left.len(), "{} files instead of {}", after.len(), before.len() + 2 * left.len());
    if subs.iter().any(|s| s.c.n > 1) {
        cx.key(subs[0].c.key() ^ (nt as u64) << 40 ^ (steps as u64) << 44);
    }
    cx.sample(subs[0].c.text());
    Ok(())
}
