//! C19 : the C interface against the Rust one.

use crate::ctl::*;
use crate::ctx::Ctx;
use crate::oracle::*;
use crate::rng::*;
use crate::spaces::*;
use crate::{must, viol};
use hnsw_rs::libext::*;
use hnsw_rs::prelude::*;
use std::path::Path;

#[repr(C)]
struct VecMirror {
    len: i64,
    ptr: *const Neighbourhood_api,
}

unsafe fn read_answer(p: *const Neighbourhood_api) -> Result<Vec<(usize, f32)>, String> {
    if p.is_null() {
        return Err("null answer".into());
    }
    read_nbh(&*p)
}

unsafe fn read_nbh(a: &Neighbourhood_api) -> Result<Vec<(usize, f32)>, String> {
    if a.nbgh < 0 || a.nbgh > 1_000_000 {
        return Err(format!("{} neighbours announced", a.nbgh));
    }
    let mut v = Vec::new();
    for i in 0..a.nbgh as usize {
        let n = &*a.neighbours.add(i);
        v.push((n.id, n.d));
    }
    Ok(v)
}

fn rust_answer(v: &[Neighbour]) -> Vec<(usize, f32)> {
    v.iter().map(|n| (n.d_id, n.distance)).collect()
}

fn eqv(a: &[(usize, f32)], b: &[(usize, f32)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.to_bits() == y.1.to_bits())
}

#[derive(Clone, Copy, PartialEq)]
enum Conv {
    Plain,
    Unit,
    Prob,
    Small,
}

fn raw(rng: &mut Rng, n: usize, dim: usize, conv: Conv) -> Vec<Vec<f64>> {
    (0..n)
        .map(|_| {
            let v: Vec<f64> = (0..dim).map(|_| rng.s()).collect();
            match conv {
                Conv::Plain => v,
                Conv::Small => v.iter().map(|x| x * 0.01).collect(),
                Conv::Unit => {
                    let s = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-6);
                    v.iter().map(|x| x / s * 0.999).collect()
                }
                Conv::Prob => {
                    let w: Vec<f64> = v.iter().map(|x| x.abs() + 0.01).collect();
                    let s: f64 = w.iter().sum();
                    w.iter().map(|x| x / s * 0.9999).collect()
                }
            }
        })
        .collect()
}

struct Shape {
    n: usize,
    nq: usize,
    m: usize,
    efc: usize,
    lev: Lev,
    seed: u64,
    exact: bool,
}

fn shape(rng: &mut Rng, seed: u64) -> Shape {
    let exact = rng.chance(0.5);
    let n = rng.range(1, if exact { 60 } else { 150 });
    Shape {
        n,
        nq: 8,
        m: if exact { (n + rng.below(10)).clamp(2, 255) } else { *rng.pick(&[2, 4, 8, 16, 48]) },
        efc: rng.range(5, 60),
        lev: pick_levels(rng),
        seed,
        exact,
    }
}

fn cwd(p: &Path) -> std::path::PathBuf {
    let o = std::env::current_dir().expect("cwd");
    std::env::set_current_dir(p).expect("chdir");
    o
}

struct Back(std::path::PathBuf);
impl Drop for Back {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

macro_rules! ffi {
    ($fname:ident, $t:ty, $api:ty, $init:ident, $initp:ident, $ins:ident, $pins:ident, $se:ident, $pse:ident, $dump:ident, $cfn:ident,
     $tocast:expr, new $new:expr, drop $drop:expr, others $others:expr, metrics [$(($mname:expr, $d:ty, $conv:expr, $load:expr, $wrong:expr)),*]) => {
        fn $fname(seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
            let names = [$($mname),*];
            let which = idx as usize % (names.len() + 1);
            let mut k = 0;
            $(
                if which == k {
                    let l: Option<unsafe extern "C" fn(*mut HnswIo) -> *const $api> = $load;
                    let w: Option<unsafe extern "C" fn(*mut HnswIo) -> *const $api> = $wrong;
                    return go::<$d>(seed, idx, $mname, $conv, <$d>::default(), <$d>::default(), l, w, cx);
                }
                k += 1;
            )*
            let _ = k;
            return go::<DistCFFI<$t>>(seed, idx, "", Conv::Plain, DistCFFI::<$t>::new($cfn), DistCFFI::<$t>::new($cfn), None, None, cx);

            #[allow(clippy::too_many_arguments)]
            fn go<D: Distance<$t> + Send + Sync + 'static>(
                seed: u64,
                idx: u64,
                name: &str,
                conv: Conv,
                d0: D,
                d1: D,
                load: Option<unsafe extern "C" fn(*mut HnswIo) -> *const $api>,
                wrong: Option<unsafe extern "C" fn(*mut HnswIo) -> *const $api>,
                cx: &mut Ctx,
            ) -> R<()> {
                let mut rng = Rng::new(seed);
                let s = shape(&mut rng, seed);
                let dim = if conv == Conv::Prob { rng.range(5, 20) } else { rng.range(1, 20) };
                let cast: fn(f64) -> $t = $tocast;
                let varlen = name == "DistLevenshtein";
                let mut vecs: Vec<Vec<$t>> = raw(&mut rng, s.n + s.nq, dim, conv)
                    .iter()
                    .map(|v| v.iter().map(|x| cast(*x)).collect())
                    .collect();
                if varlen {
                    for v in vecs.iter_mut() {
                        let l = rng.range(1, dim);
                        v.truncate(l);
                    }
                }
                let ids: Vec<usize> = (0..s.n).map(|i| if idx % 2 == 0 { i } else { usize::MAX - 3 * i }).collect();
                let what = format!("{} {} n {} M {} ef construction {} dimension {dim}", stringify!($t), if name.is_empty() { "C function" } else { name }, s.n, s.m, s.efc);
                let mk_api = |rng: &mut Rng| -> Result<*const $api, Fail> {
                    levels(s.seed, s.lev);
                    let newf: Option<unsafe extern "C" fn(usize, usize, usize, *const u8, usize, usize) -> *const $api> = $new;
                    let p = unsafe {
                        if name.is_empty() {
                            $initp(s.m, s.efc, $cfn)
                        } else if let (Some(f), true) = (newf, rng.chance(0.4)) {
                            f(s.m, s.efc, name.len(), name.as_ptr(), 10000, 16)
                        } else {
                            $init(s.m, s.efc, name.len(), name.as_ptr())
                        }
                    };
                    if p.is_null() {
                        viol!("creation of an index by the C interface gives null ({what})");
                    }
                    Ok(p)
                };
                // serial: same seed, same graph, same answers
                let api = mk_api(&mut rng)?;
                levels(s.seed, s.lev);
                let h = Hnsw::<$t, D>::new(s.m, 10000, 16, s.efc, d0);
                levels(s.seed, s.lev);
                for i in 0..s.n {
                    h.insert((&vecs[i], ids[i]));
                }
                levels(s.seed, s.lev);
                for i in 0..s.n {
                    unsafe { $ins(api as *mut $api, vecs[i].len(), vecs[i].as_ptr(), ids[i]) };
                }
                let compare = |api: *const $api, h: &Hnsw<'_, $t, D>, rng: &mut Rng, exact_only: bool, w: &str, cx: &mut Ctx| -> R<()> {
                    for r in 0..14 {
                        let q = rng.below(s.n + s.nq);
                        let (k, ef) = if r % 16 == 7 { (*rng.pick(&crate::pa::HUGE), *rng.pick(&crate::pa::HUGE)) } else if exact_only || r % 3 == 0 { (rng.range(1, s.n + 2), s.n + 5) } else { (rng.range(0, 12), rng.range(1, 40)) };
                        let want = rust_answer(&h.search(&vecs[q], k, ef));
                        let got = unsafe { read_answer($se(api, vecs[q].len(), vecs[q].as_ptr(), k, ef)) };
                        let got = match got { Ok(g) => g, Err(e) => viol!("{w}: search: {e} ({what})") };
                        cx.events += 1;
                        if exact_only {
                            must!(got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| near(x.1, y.1)),
                                "{w}: search k {k} ef {ef} gives {:?}, Rust {:?} ({what})", got.iter().take(4).collect::<Vec<_>>(), want.iter().take(4).collect::<Vec<_>>());
                        } else {
                            must!(eqv(&got, &want), "{w}: search k {k} ef {ef} gives {:?}, Rust {:?} ({what})", got.iter().take(4).collect::<Vec<_>>(), want.iter().take(4).collect::<Vec<_>>());
                        }
                    }
                    if !varlen {
                        let qs: Vec<usize> = (0..rng.range(1, 30)).map(|_| rng.below(s.n + s.nq)).collect();
                        let mut ptrs: Vec<*const $t> = qs.iter().map(|q| vecs[*q].as_ptr()).collect();
                        let (k, ef) = if exact_only { (5, s.n + 5) } else { (rng.range(1, 10), rng.range(1, 40)) };
                        let r = unsafe { $pse(api, qs.len(), dim as i64, ptrs.as_mut_ptr(), k, ef) } as *const VecMirror;
                        if r.is_null() { viol!("{w}: batch search gives null ({what})"); }
                        let r = unsafe { &*r };
                        must!(r.len == qs.len() as i64, "{w}: batch of {} answers {} ({what})", qs.len(), r.len);
                        for (i, q) in qs.iter().enumerate() {
                            let got = match unsafe { read_nbh(&*r.ptr.add(i)) } { Ok(g) => g, Err(e) => viol!("{w}: batch search: {e} ({what})") };
                            let want = rust_answer(&h.search(&vecs[*q], k, ef));
                            cx.events += 1;
                            let ok = if exact_only { got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| near(x.1, y.1)) } else { eqv(&got, &want) };
                            must!(ok, "{w}: answer {i} of a batch search k {k} ef {ef} gives {:?}, Rust {:?} ({what})", got.iter().take(4).collect::<Vec<_>>(), want.iter().take(4).collect::<Vec<_>>());
                        }
                    }
                    Ok(())
                };
                compare(api, &h, &mut rng, false, "serial insertion", cx)?;
                // dump
                let d = cx.fresh();
                let _back = Back(cwd(&d));
                let fname = "cdump";
                let r = unsafe { $dump(api, fname.len(), fname.as_ptr()) };
                must!(r == 1, "dump by the C interface returns {r} ({what})");
                let r = h.file_dump(Path::new("."), "rdump");
                must!(r.is_ok(), "dump by the Rust interface fails ({what})");
                let (c1, r1) = (crate::dumpfile::parse(&d, "cdump"), crate::dumpfile::parse(&d, "rdump"));
                match (c1, r1) {
                    (Ok(c1), Ok(r1)) => {
                        same_graph(&r1.pts, &c1.pts, true, "dump by the C interface")?;
                        must!(c1.h == r1.h, "header of the C dump {:?}, of the Rust dump {:?}", c1.h, r1.h);
                        let gname = "cdump.hnsw.graph";
                        let f = unsafe { hnsw_rs::libext::load_hnsw_description(gname.len(), gname.as_ptr()) };
                        must!(!f.is_null(), "description of a complete dump is null ({what})");
                        let f = unsafe { &*f };
                        let (dn, tn) = unsafe {
                            (
                                String::from_utf8_lossy(std::slice::from_raw_parts(f.distname, f.distname_len)).into_owned(),
                                String::from_utf8_lossy(std::slice::from_raw_parts(f.t_name, f.t_name_len)).into_owned(),
                            )
                        };
                        must!(
                            f.max_nb_connection == r1.h.m && f.nb_layer == r1.h.nb_layer && f.ef == r1.h.ef && f.nb_point == s.n && f.data_dimension == r1.h.dim && dn == r1.h.dname && tn == r1.h.tname,
                            "description by the C interface: M {} layers {} ef {} points {} dimension {} {dn} {tn}, dump says {:?}",
                            f.max_nb_connection, f.nb_layer, f.ef, f.nb_point, f.data_dimension, r1.h
                        );
                        cx.events += 2;
                    }
                    (Err(e), _) => viol!("files of a dump by the C interface: {e} ({what})"),
                    (_, Err(e)) => viol!("files of a dump by the Rust interface: {e} ({what})"),
                }
                // reload
                if let Some(l) = load {
                    for f in ["cdump", "rdump"] {
                        let io = unsafe { get_hnswio(f.len() as u64, f.as_ptr()) } as *mut HnswIo;
                        must!(!io.is_null(), "get_hnswio gives null");
                        let r = unsafe { l(io) };
                        must!(!r.is_null(), "reload by the C interface of {f} gives null ({what})");
                        // same as a Rust reload of the same dump
                        let mut rio = HnswIo::new(Path::new("."), f);
                        let rh = match rio.load_hnsw_with_dist::<$t, D>(d1_again(&d1)) {
                            Ok(x) => x,
                            Err(e) => viol!("reload by the Rust interface fails: {e} ({what})"),
                        };
                        compare(r, &rh, &mut rng, false, "reloaded index", cx)?;
                        drop(rh);
                        rio.set_options(ReloadOptions::default());
                        let dropf: Option<unsafe extern "C" fn(*const $api)> = $drop;
                        if let Some(df) = dropf {
                            unsafe { df(r) };
                            drop(unsafe { Box::from_raw(io) });
                        }
                    }
                    let io = unsafe { get_hnswio(5, b"cdump".as_ptr()) } as *mut HnswIo;
                    if let Some(w) = wrong {
                        let r = unsafe { w(io) };
                        must!(r.is_null(), "a dump of {name} is reloaded as another metric by the C interface ({what})");
                    }
                    let io2 = unsafe { get_hnswio(6, b"nofile".as_ptr()) } as *mut HnswIo;
                    let r = unsafe { l(io2) };
                    must!(r.is_null(), "reload of a missing dump gives an index ({what})");
                    cx.events += 2;
                }
                // graph only
                let io = unsafe { get_hnswio(5, b"rdump".as_ptr()) } as *mut HnswIo;
                let r = unsafe { load_hnswdump_NoData_DistNoDist(io) };
                must!(!r.is_null(), "graph only reload by the C interface gives null ({what})");
                // another type
                let others: bool = ($others)("rdump");
                must!(others, "a dump of {} is reloaded as another type by the C interface ({what})", stringify!($t));
                // unknown names
                for bad in ["DistFoo", "", "L2", "distl2", "DistL2 ", "DistL22", "\u{e9}"] {
                    let r = unsafe { $init(8, 20, bad.len(), if bad.is_empty() { b"x".as_ptr() } else { bad.as_ptr() }) };
                    must!(r.is_null(), "unknown metric name {bad:?} gives an index for {}", stringify!($t));
                    let newf: Option<unsafe extern "C" fn(usize, usize, usize, *const u8, usize, usize) -> *const $api> = $new;
                    if let Some(f) = newf {
                        let r = unsafe { f(8, 20, bad.len(), if bad.is_empty() { b"x".as_ptr() } else { bad.as_ptr() }, 100, 16) };
                        must!(r.is_null(), "unknown metric name {bad:?} gives an index for {}", stringify!($t));
                    }
                    cx.events += 1;
                }
                for f in ["nofile", "cdump", "cdump.hnsw.data", ""] {
                    let r = unsafe { hnsw_rs::libext::load_hnsw_description(f.len(), if f.is_empty() { b"x".as_ptr() } else { f.as_ptr() }) };
                    must!(r.is_null(), "description of {f:?} which is not a graph file is not null");
                }
                // a dump that cannot be written
                let bad = "no/such/dir";
                let r = unsafe { $dump(api, bad.len(), bad.as_ptr()) };
                must!(r != 1, "dump in a directory that does not exist returns {r}");
                // parallel insertion
                if !varlen && s.exact {
                    let api2 = mk_api(&mut rng)?;
                    levels(s.seed, s.lev);
                    inject(seed, Inj::Random(0.02));
                    let mut ptrs: Vec<*const $t> = (0..s.n).map(|i| vecs[i].as_ptr()).collect();
                    let half = rng.below(s.n + 1);
                    unsafe {
                        $pins(api2 as *mut $api, half, dim, ptrs.as_mut_ptr(), ids.as_ptr());
                        $pins(api2 as *mut $api, s.n - half, dim, ptrs[half..].as_mut_ptr(), ids[half..].as_ptr());
                    }
                    inject(seed, Inj::Off);
                    compare(api2, &h, &mut rng, true, "batch insertion", cx)?;
                    // all ids are there
                    let got = unsafe { read_answer($se(api2, vecs[0].len(), vecs[0].as_ptr(), s.n + 3, s.n + 3)) };
                    if let Ok(g) = got {
                        let mut a: Vec<usize> = g.iter().map(|x| x.0).collect();
                        let mut b = ids.clone();
                        a.sort_unstable();
                        b.sort_unstable();
                        must!(a == b, "ids found after a batch insertion are not those inserted ({what})");
                    }
                    let dropf: Option<unsafe extern "C" fn(*const $api)> = $drop;
                    if let Some(df) = dropf {
                        unsafe { df(api2) };
                    }
                }
                let dropf: Option<unsafe extern "C" fn(*const $api)> = $drop;
                if let Some(df) = dropf {
                    unsafe { df(api) };
                }
                cx.key(hash_words(&[fnv(name.as_bytes()), fnv(stringify!($t).as_bytes()), s.n as u64, s.m as u64]));
                cx.sample(what);
                Ok(())
            }
        }
    };
}

/// metrics are plain values
fn d1_again<D>(d: &D) -> D {
    unsafe { std::ptr::read(d) }
}

fn null_all(name: &str, l: &[&dyn Fn(*mut HnswIo) -> bool]) -> bool {
    l.iter().all(|f| {
        let io = unsafe { get_hnswio(name.len() as u64, name.as_ptr()) } as *mut HnswIo;
        let r = f(io);
        drop(unsafe { Box::from_raw(io) });
        r
    })
}

macro_rules! isnull {
    ($($f:ident),*) => { |name: &str| null_all(name, &[$(&|io| unsafe { $f(io) }.is_null()),*]) };
}

ffi!(run_f32, f32, HnswApif32, init_hnsw_f32, init_hnsw_ptrdist_f32, insert_f32, parallel_insert_f32, search_neighbours_f32, parallel_search_neighbours_f32, file_dump_f32, c_l1_f32,
    |x| x as f32, new Some(new_hnsw_f32), drop Some(drop_hnsw_f32), others isnull!(load_hnswdump_i32_DistL1, load_hnswdump_i32_DistL2, load_hnswdump_u32_DistL2, load_hnswdump_u8_DistL1, load_hnswdump_u16_DistL2),
    metrics [
        ("DistL1", DistL1, Conv::Plain, Some(load_hnswdump_f32_DistL1), Some(load_hnswdump_f32_DistL2)),
        ("DistL2", DistL2, Conv::Plain, Some(load_hnswdump_f32_DistL2), Some(load_hnswdump_f32_DistL1)),
        ("DistDot", DistDot, Conv::Unit, Some(load_hnswdump_f32_DistDot), Some(load_hnswdump_f32_DistCosine)),
        ("DistHellinger", DistHellinger, Conv::Prob, None, Some(load_hnswdump_f32_DistJeffreys)),
        ("DistJeffreys", DistJeffreys, Conv::Prob, Some(load_hnswdump_f32_DistJeffreys), Some(load_hnswdump_f32_DistJensenShannon)),
        ("DistJensenShannon", DistJensenShannon, Conv::Prob, Some(load_hnswdump_f32_DistJensenShannon), Some(load_hnswdump_f32_DistJeffreys))
    ]);
ffi!(run_i32, i32, HnswApii32, init_hnsw_i32, init_hnsw_ptrdist_i32, insert_i32, parallel_insert_i32, search_neighbours_i32, parallel_search_neighbours_i32, file_dump_i32, c_l1_i32,
    |x| (x * 900.) as i32, new None, drop None, others isnull!(load_hnswdump_f32_DistL1, load_hnswdump_f32_DistL2, load_hnswdump_u32_DistL1, load_hnswdump_u32_DistL2, load_hnswdump_u32_DistHamming),
    metrics [
        ("DistL1", DistL1, Conv::Plain, Some(load_hnswdump_i32_DistL1), Some(load_hnswdump_i32_DistL2)),
        ("DistL2", DistL2, Conv::Plain, Some(load_hnswdump_i32_DistL2), Some(load_hnswdump_i32_DistHamming)),
        ("DistHamming", DistHamming, Conv::Small, Some(load_hnswdump_i32_DistHamming), Some(load_hnswdump_i32_DistL1))
    ]);
ffi!(run_u32, u32, HnswApiu32, init_hnsw_u32, init_hnsw_ptrdist_u32, insert_u32, parallel_insert_u32, search_neighbours_u32, parallel_search_neighbours_u32, file_dump_u32, c_l1_u32,
    |x| ((x + 1.) * 400.) as u32, new None, drop None, others isnull!(load_hnswdump_f32_DistL1, load_hnswdump_i32_DistL2, load_hnswdump_u16_DistL1, load_hnswdump_u8_DistL2, load_hnswdump_i32_DistHamming, load_hnswdump_u8_DistJaccard),
    metrics [
        ("DistL1", DistL1, Conv::Plain, Some(load_hnswdump_u32_DistL1), Some(load_hnswdump_u32_DistL2)),
        ("DistL2", DistL2, Conv::Plain, Some(load_hnswdump_u32_DistL2), Some(load_hnswdump_u32_DistJaccard)),
        ("DistJaccard", DistJaccard, Conv::Plain, Some(load_hnswdump_u32_DistJaccard), Some(load_hnswdump_u32_DistHamming)),
        ("DistHamming", DistHamming, Conv::Small, Some(load_hnswdump_u32_DistHamming), Some(load_hnswdump_u32_DistL1))
    ]);
ffi!(run_u16, u16, HnswApiu16, init_hnsw_u16, init_hnsw_ptrdist_u16, insert_u16, parallel_insert_u16, search_neighbours_u16, parallel_search_neighbours_u16, file_dump_u16, c_l1_u16,
    |x| ((x + 1.) * 100.) as u16, new Some(new_hnsw_u16), drop Some(drop_hnsw_u16), others isnull!(load_hnswdump_f32_DistL1, load_hnswdump_i32_DistL2, load_hnswdump_u32_DistL1, load_hnswdump_u8_DistL1, load_hnswdump_u8_DistHamming),
    metrics [
        ("DistL1", DistL1, Conv::Plain, Some(load_hnswdump_u16_DistL1), Some(load_hnswdump_u16_DistL2)),
        ("DistL2", DistL2, Conv::Plain, Some(load_hnswdump_u16_DistL2), Some(load_hnswdump_u16_DistL1)),
        ("DistJaccard", DistJaccard, Conv::Plain, None, Some(load_hnswdump_u16_DistLevenshtein)),
        ("DistHamming", DistHamming, Conv::Small, Some(load_hnswdump_u16_DistHamming), Some(load_hnswdump_u16_DistL1)),
        ("DistLevenshtein", DistLevenshtein, Conv::Small, Some(load_hnswdump_u16_DistLevenshtein), Some(load_hnswdump_u16_DistHamming))
    ]);
ffi!(run_u8, u8, HnswApiu8, init_hnsw_u8, init_hnsw_ptrdist_u8, insert_u8, parallel_insert_u8, search_neighbours_u8, parallel_search_neighbours_u8, file_dump_u8, c_l1_u8,
    |x| ((x + 1.) * 20.) as u8, new None, drop None, others isnull!(load_hnswdump_f32_DistL1, load_hnswdump_i32_DistL2, load_hnswdump_u32_DistL1, load_hnswdump_u16_DistL1, load_hnswdump_u16_DistHamming, load_hnswdump_u32_DistJaccard),
    metrics [
        ("DistL1", DistL1, Conv::Plain, Some(load_hnswdump_u8_DistL1), Some(load_hnswdump_u8_DistL2)),
        ("DistL2", DistL2, Conv::Plain, Some(load_hnswdump_u8_DistL2), Some(load_hnswdump_u8_DistL1)),
        ("DistHamming", DistHamming, Conv::Small, Some(load_hnswdump_u8_DistHamming), Some(load_hnswdump_u8_DistL1)),
        ("DistJaccard", DistJaccard, Conv::Plain, Some(load_hnswdump_u8_DistJaccard), Some(load_hnswdump_u8_DistHamming))
    ]);

pub fn c19(kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    match kind {
        "f32" => run_f32(seed, idx, cx)?,
        "i32" => run_i32(seed, idx, cx)?,
        "u32" => run_u32(seed, idx, cx)?,
        "u16" => run_u16(seed, idx, cx)?,
        _ => run_u8(seed, idx, cx)?,
    }
    if kind == "f32" && idx % 7 == 3 {
        cosine(seed, cx)?;
    }
    Ok(())
}

/// cosine can be reloaded, not created, by name
fn cosine(seed: u64, cx: &mut Ctx) -> R<()> {
    let mut rng = Rng::new(seed ^ 5);
    let n = rng.range(2, 60);
    let v: Vec<Vec<f32>> = raw(&mut rng, n, 8, Conv::Unit)
        .iter()
        .map(|v| v.iter().map(|x| *x as f32).collect())
        .collect();
    let h = Hnsw::<f32, DistCosine>::new(12, n, 16, 40, DistCosine {});
    for (i, x) in v.iter().enumerate() {
        h.insert((x, i + 5));
    }
    let d = cx.fresh();
    let _b = Back(cwd(&d));
    must!(h.file_dump(Path::new("."), "cos").is_ok(), "dump");
    let io = unsafe { get_hnswio(3, b"cos".as_ptr()) } as *mut HnswIo;
    let r = unsafe { load_hnswdump_f32_DistCosine(io) };
    must!(!r.is_null(), "reload of a cosine dump by the C interface gives null");
    let io2 = unsafe { get_hnswio(3, b"cos".as_ptr()) } as *mut HnswIo;
    must!(unsafe { load_hnswdump_f32_DistDot(io2) }.is_null(), "a cosine dump is reloaded as dot by the C interface");
    for q in &v {
        let g = unsafe { read_answer(search_neighbours_f32(r, q.len(), q.as_ptr(), 5, 30)) };
        let g = match g {
            Ok(g) => g,
            Err(e) => viol!("{e}"),
        };
        let w = rust_answer(&h.search(q, 5, 30));
        must!(eqv(&g, &w), "search in a cosine index reloaded by the C interface gives {g:?}, Rust {w:?}");
        cx.events += 1;
    }
    Ok(())
}
