//! Type erased access to the library: a `Space` is a set of vectors of one element type with one metric,
//! an `Index` is an Hnsw built (or reloaded) on it. All workloads and oracles are written once against these traits.

use crate::rng::Rng;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use std::mem::ManuallyDrop;
use std::path::Path;
use std::sync::Arc;

pub type Pid = (u8, i32);

#[derive(Clone, Copy, Debug)]
pub struct Nb {
    pub id: usize,
    pub pid: Pid,
    pub d: f32,
}

impl PartialEq for Nb {
    fn eq(&self, o: &Nb) -> bool {
        self.id == o.id && self.pid == o.pid && self.d.to_bits() == o.d.to_bits()
    }
}

fn nb(n: &Neighbour) -> Nb {
    Nb {
        id: n.d_id,
        pid: (n.p_id.0, n.p_id.1),
        d: n.distance,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pt {
    pub id: usize,
    pub pid: Pid,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct GPt {
    pub id: usize,
    pub pid: Pid,
    pub bytes: Vec<u8>,
    pub nb: Vec<Vec<Nb>>,
}

#[derive(Clone, Debug)]
pub struct Params {
    pub m: usize,
    pub max_elem: usize,
    pub max_layer: usize,
    pub efc: usize,
    pub extend: bool,
    pub keep: bool,
    pub scale: Option<f64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    /// load_hnsw with Default metric (load_hnsw_with_dist when the metric has no default)
    Normal,
    WithDist,
    /// mapped with threshold
    Mmap(usize),
}

pub enum Filt<'a> {
    Ids(Vec<usize>),
    Fun(&'a (dyn Fn(usize) -> bool + Sync)),
}

pub trait Held: Send {
    fn read(&self) -> Pt;
    fn nb_links(&self) -> usize;
}

pub trait Flat {
    fn get(&self, id: usize) -> Option<Vec<Nb>>;
}

pub trait DMap {
    fn get(&self, id: usize) -> Option<Vec<u8>>;
    fn ids(&self) -> Vec<usize>;
    fn nb(&self) -> usize;
    fn tname(&self) -> String;
    fn dname(&self) -> String;
    fn accepts_own(&self) -> bool;
    fn accepts_other(&self) -> bool;
}

pub trait Index: Send + Sync {
    /// inserts vector number i of the space
    fn insert(&self, i: usize, id: usize);
    fn insert_slice(&self, i: usize, id: usize);
    fn par_insert(&self, l: &[(usize, usize)]);
    fn par_insert_slice(&self, l: &[(usize, usize)]);
    /// insertions by the AnnT trait
    fn api_insert(&mut self, i: usize, id: usize);
    fn api_par_insert(&mut self, l: &[(usize, usize)]);
    fn search(&self, q: usize, k: usize, ef: usize) -> Vec<Nb>;
    fn search_filter(&self, q: usize, k: usize, ef: usize, f: Option<&Filt>) -> Vec<Nb>;
    fn par_search(&self, qs: &[usize], k: usize, ef: usize) -> Vec<Vec<Nb>>;
    fn api_search(&self, q: usize, k: usize, ef: usize) -> Vec<Nb>;
    fn api_par_search(&self, qs: &[usize], k: usize, ef: usize) -> Vec<Vec<Nb>>;
    fn points(&self) -> Vec<Pt>;
    fn point_ids(&self) -> Vec<(usize, Pid)>;
    fn layer_points(&self, l: usize) -> Vec<Pt>;
    /// f is called while the iterator is alive; the layer iterator if a layer is given. Number of points visited
    fn walk(&self, l: Option<usize>, f: &mut dyn FnMut(usize, Pid, usize)) -> usize;
    fn graph(&self) -> Vec<GPt>;
    fn point_data(&self, p: Pid) -> Option<Vec<u8>>;
    fn nb_point(&self) -> usize;
    fn layer_nb(&self, l: usize) -> usize;
    fn max_level_obs(&self) -> u8;
    fn max_level(&self) -> usize;
    fn efc(&self) -> usize;
    fn m(&self) -> usize;
    fn scale(&self) -> f64;
    fn dim(&self) -> usize;
    fn dist_name(&self) -> String;
    fn set_searching(&mut self, b: bool);
    fn set_extend(&mut self, b: bool);
    fn set_keep(&mut self, b: bool);
    fn modify_scale(&mut self, f: f64);
    fn flat(&self) -> Box<dyn Flat>;
    fn dump(&self, dir: &Path, base: &str) -> Result<String, String>;
    fn hold(&self, every: usize) -> Vec<Box<dyn Held>>;
    /// address and size in bytes of the vector of every point
    fn addresses(&self) -> Vec<(Pid, usize, usize)>;
}

pub trait Space: Send + Sync {
    fn name(&self) -> &'static str;
    fn tname(&self) -> String;
    fn dname(&self) -> String;
    fn elem_size(&self) -> usize;
    fn len(&self) -> usize;
    fn vbytes(&self, i: usize) -> Vec<u8>;
    fn vlen(&self, i: usize) -> usize;
    /// metric of the space between vector q and vector stored as bytes
    fn dist_qb(&self, q: usize, b: &[u8]) -> f32;
    fn dist_bb(&self, a: &[u8], b: &[u8]) -> f32;
    fn dist(&self, i: usize, j: usize) -> f32;
    fn create(&self, p: &Params) -> Box<dyn Index>;
    fn reload(&self, dir: &Path, base: &str, how: How) -> Result<Box<dyn Index>, String>;
    fn datamap(&self, dir: &Path, base: &str) -> Result<Box<dyn DMap>, String>;
    fn has_default(&self) -> bool;
    /// vector i as dumped in format 2
    fn vbincode(&self, i: usize) -> Vec<u8>;
    fn align(&self) -> usize;
    /// elements own memory: no raw bytes in dumps, no mapping
    fn owned(&self) -> bool;
}

pub trait El: 'static + Serialize + DeserializeOwned + Clone + Send + Sync + Debug {}
impl<T: 'static + Serialize + DeserializeOwned + Clone + Send + Sync + Debug> El for T {}

pub type LoadDef<T, D> = fn(&'static mut HnswIo) -> Result<Hnsw<'static, T, D>, String>;

pub struct Sp<T: El, D: Distance<T> + Send + Sync + 'static> {
    pub name: &'static str,
    pub vecs: Arc<Vec<Vec<T>>>,
    pub mk: fn() -> D,
    pub load_def: Option<LoadDef<T, D>>,
}

pub fn load_default<T: El, D: Distance<T> + Default + Send + Sync + 'static>(
    io: &'static mut HnswIo,
) -> Result<Hnsw<'static, T, D>, String> {
    io.load_hnsw::<T, D>().map_err(|e| e.to_string())
}

/// elements that own memory have no meaning as raw bytes
pub fn owns<T>() -> bool {
    std::mem::needs_drop::<T>()
}

pub fn to_bytes<T: El>(v: &[T]) -> Vec<u8> {
    if owns::<T>() {
        return bincode::serialize(v).expect("bincode");
    }
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }.to_vec()
}

pub fn from_bytes<T: El>(b: &[u8]) -> Vec<T> {
    if owns::<T>() {
        return bincode::deserialize(b).expect("bincode");
    }
    let s = std::mem::size_of::<T>();
    if s == 0 {
        return Vec::new();
    }
    let n = b.len() / s;
    let mut v = Vec::<T>::with_capacity(n);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, n * s);
        v.set_len(n);
    }
    v
}

pub struct Idx<T: El, D: Distance<T> + Send + Sync + 'static> {
    h: ManuallyDrop<Hnsw<'static, T, D>>,
    io: *mut HnswIo,
    vecs: Arc<Vec<Vec<T>>>,
}

unsafe impl<T: El, D: Distance<T> + Send + Sync + 'static> Send for Idx<T, D> {}
unsafe impl<T: El, D: Distance<T> + Send + Sync + 'static> Sync for Idx<T, D> {}

impl<T: El, D: Distance<T> + Send + Sync + 'static> Drop for Idx<T, D> {
    fn drop(&mut self) {
        // index first, then the HnswIo it borrows, as documented
        unsafe {
            ManuallyDrop::drop(&mut self.h);
            if !self.io.is_null() {
                drop(Box::from_raw(self.io));
            }
        }
    }
}

struct FlatW(FlatNeighborhood);
impl Flat for FlatW {
    fn get(&self, id: usize) -> Option<Vec<Nb>> {
        self.0.get_neighbours(id).map(|v| v.iter().map(nb).collect())
    }
}

struct HeldW<T: El>(Arc<Point<'static, T>>);
impl<T: El> Held for HeldW<T> {
    fn read(&self) -> Pt {
        let p = self.0.get_point_id();
        Pt {
            id: self.0.get_origin_id(),
            pid: (p.0, p.1),
            bytes: to_bytes(self.0.get_v()),
        }
    }
    fn nb_links(&self) -> usize {
        self.0.get_neighborhood_id().iter().map(|v| v.len()).sum()
    }
}

fn pt<T: El>(p: &Point<'_, T>) -> Pt {
    let pid = p.get_point_id();
    Pt {
        id: p.get_origin_id(),
        pid: (pid.0, pid.1),
        bytes: to_bytes(p.get_v()),
    }
}

impl<T: El, D: Distance<T> + Send + Sync + 'static> Index for Idx<T, D> {
    fn insert(&self, i: usize, id: usize) {
        self.h.insert((&self.vecs[i], id));
    }
    fn insert_slice(&self, i: usize, id: usize) {
        self.h.insert_slice((self.vecs[i].as_slice(), id));
    }
    fn par_insert(&self, l: &[(usize, usize)]) {
        let v: Vec<(&Vec<T>, usize)> = l.iter().map(|(i, id)| (&self.vecs[*i], *id)).collect();
        self.h.parallel_insert(&v);
    }
    fn par_insert_slice(&self, l: &[(usize, usize)]) {
        let v: Vec<(&[T], usize)> = l.iter().map(|(i, id)| (self.vecs[*i].as_slice(), *id)).collect();
        self.h.parallel_insert_slice(&v);
    }
    fn api_insert(&mut self, i: usize, id: usize) {
        let vecs = Arc::clone(&self.vecs);
        AnnT::insert_data(&mut *self.h, &vecs[i], id);
    }
    fn api_par_insert(&mut self, l: &[(usize, usize)]) {
        let vecs = Arc::clone(&self.vecs);
        let v: Vec<(&Vec<T>, usize)> = l.iter().map(|(i, id)| (&vecs[*i], *id)).collect();
        AnnT::parallel_insert_data(&mut *self.h, &v);
    }
    fn search(&self, q: usize, k: usize, ef: usize) -> Vec<Nb> {
        self.h.search(&self.vecs[q], k, ef).iter().map(nb).collect()
    }
    fn search_filter(&self, q: usize, k: usize, ef: usize, f: Option<&Filt>) -> Vec<Nb> {
        let r = match f {
            None => self.h.search_filter(&self.vecs[q], k, ef, None),
            Some(Filt::Ids(v)) => self.h.search_filter(&self.vecs[q], k, ef, Some(v)),
            Some(Filt::Fun(g)) => {
                let clo = |id: &usize| g(*id);
                self.h.search_possible_filter(&self.vecs[q], k, ef, Some(&clo))
            }
        };
        r.iter().map(nb).collect()
    }
    fn par_search(&self, qs: &[usize], k: usize, ef: usize) -> Vec<Vec<Nb>> {
        let v: Vec<Vec<T>> = qs.iter().map(|q| self.vecs[*q].clone()).collect();
        let r = self.h.parallel_search(&v, k, ef);
        r.iter().map(|v| v.iter().map(nb).collect()).collect()
    }
    fn api_search(&self, q: usize, k: usize, ef: usize) -> Vec<Nb> {
        AnnT::search_neighbours(&*self.h, &self.vecs[q], k, ef).iter().map(nb).collect()
    }
    fn api_par_search(&self, qs: &[usize], k: usize, ef: usize) -> Vec<Vec<Nb>> {
        let v: Vec<Vec<T>> = qs.iter().map(|q| self.vecs[*q].clone()).collect();
        let r = AnnT::parallel_search_neighbours(&*self.h, &v, k, ef);
        r.iter().map(|v| v.iter().map(nb).collect()).collect()
    }
    fn points(&self) -> Vec<Pt> {
        self.h.get_point_indexation().into_iter().map(|p| pt(&p)).collect()
    }
    fn point_ids(&self) -> Vec<(usize, Pid)> {
        self.h
            .get_point_indexation()
            .into_iter()
            .map(|p| (p.get_origin_id(), (p.get_point_id().0, p.get_point_id().1)))
            .collect()
    }
    fn walk(&self, l: Option<usize>, f: &mut dyn FnMut(usize, Pid, usize)) -> usize {
        let mut n = 0;
        let pi = self.h.get_point_indexation();
        let mut g = |p: std::sync::Arc<Point<'_, T>>| {
            n += 1;
            let nb = p.get_neighborhood_id().iter().map(|l| l.len()).sum();
            f(p.get_origin_id(), (p.get_point_id().0, p.get_point_id().1), nb)
        };
        match l {
            Some(l) => pi.get_layer_iterator(l).for_each(&mut g),
            None => {
                for p in pi {
                    g(p)
                }
            }
        }
        n
    }
    fn layer_points(&self, l: usize) -> Vec<Pt> {
        self.h
            .get_point_indexation()
            .get_layer_iterator(l)
            .map(|p| pt(&p))
            .collect()
    }
    fn graph(&self) -> Vec<GPt> {
        self.h
            .get_point_indexation()
            .into_iter()
            .map(|p| {
                let q = pt(&p);
                GPt {
                    id: q.id,
                    pid: q.pid,
                    bytes: q.bytes,
                    nb: p
                        .get_neighborhood_id()
                        .iter()
                        .map(|v| v.iter().map(nb).collect())
                        .collect(),
                }
            })
            .collect()
    }
    fn point_data(&self, p: Pid) -> Option<Vec<u8>> {
        self.h
            .get_point_indexation()
            .get_point_data(&PointId(p.0, p.1))
            .map(|v| to_bytes(&v))
    }
    fn nb_point(&self) -> usize {
        let n = self.h.get_nb_point();
        let n2 = self.h.get_point_indexation().get_nb_point();
        if n2 < n {
            return usize::MAX; // both are the same count, which never decreases
        }
        n
    }
    fn layer_nb(&self, l: usize) -> usize {
        self.h.get_point_indexation().get_layer_nb_point(l)
    }
    fn max_level_obs(&self) -> u8 {
        self.h.get_max_level_observed()
    }
    fn max_level(&self) -> usize {
        self.h.get_max_level()
    }
    fn efc(&self) -> usize {
        self.h.get_ef_construction()
    }
    fn m(&self) -> usize {
        self.h.get_max_nb_connection() as usize
    }
    fn scale(&self) -> f64 {
        self.h.get_point_indexation().get_level_scale()
    }
    fn dim(&self) -> usize {
        self.h.get_point_indexation().get_data_dimension()
    }
    fn dist_name(&self) -> String {
        self.h.get_distance_name()
    }
    fn set_searching(&mut self, b: bool) {
        self.h.set_searching_mode(b)
    }
    fn set_extend(&mut self, b: bool) {
        self.h.set_extend_candidates(b)
    }
    fn set_keep(&mut self, b: bool) {
        self.h.set_keeping_pruned(b)
    }
    fn modify_scale(&mut self, f: f64) {
        self.h.modify_level_scale(f)
    }
    fn flat(&self) -> Box<dyn Flat> {
        Box::new(FlatW(FlatNeighborhood::from(&*self.h)))
    }
    fn dump(&self, dir: &Path, base: &str) -> Result<String, String> {
        self.h.file_dump(dir, base).map_err(|e| e.to_string())
    }
    fn addresses(&self) -> Vec<(Pid, usize, usize)> {
        self.h
            .get_point_indexation()
            .into_iter()
            .map(|p| {
                let pid = p.get_point_id();
                let v = p.get_v();
                ((pid.0, pid.1), v.as_ptr() as usize, std::mem::size_of_val(v))
            })
            .collect()
    }
    fn hold(&self, every: usize) -> Vec<Box<dyn Held>> {
        self.h
            .get_point_indexation()
            .into_iter()
            .enumerate()
            .filter(|(i, _)| i % every.max(1) == 0)
            .map(|(_, p)| Box::new(HeldW(p)) as Box<dyn Held>)
            .collect()
    }
}

struct DMapW<T>(DataMap, std::marker::PhantomData<T>);

#[derive(Clone, Copy, Debug)]
pub struct Foreign;

impl<T: El> DMap for DMapW<T> {
    fn get(&self, id: usize) -> Option<Vec<u8>> {
        self.0.get_data::<T>(&id).map(|s| to_bytes(s))
    }
    fn ids(&self) -> Vec<usize> {
        self.0.get_dataid_iter().copied().collect()
    }
    fn nb(&self) -> usize {
        self.0.get_nb_data()
    }
    fn tname(&self) -> String {
        self.0.get_data_typename()
    }
    fn dname(&self) -> String {
        self.0.get_distname()
    }
    fn accepts_own(&self) -> bool {
        self.0.check_data_type::<T>()
    }
    fn accepts_other(&self) -> bool {
        if self.0.check_data_type::<Foreign>() || self.0.check_data_type::<Vec<T>>() {
            return true;
        }
        // no vector of another type is given
        self.0.get_dataid_iter().take(3).any(|id| {
            self.0.get_data::<Foreign>(id).is_some()
                || self.0.get_data::<Vec<T>>(id).is_some()
                || self.0.get_data::<Option<T>>(id).is_some()
        })
    }
}

/// reload any dump as T, D
pub fn reload_as<T: El, D: Distance<T> + Send + Sync + 'static>(
    dir: &Path,
    base: &str,
    how: How,
    mk: fn() -> D,
    load_def: Option<LoadDef<T, D>>,
    vecs: Arc<Vec<Vec<T>>>,
) -> Result<Box<dyn Index>, String> {
    let opts = match how {
        How::Mmap(t) if crate::ctl::style() % 2 == 0 => ReloadOptions::new(true).set_mmap_threshold(t),
        // a positive threshold asks for mapping
        How::Mmap(t) if t > 0 => ReloadOptions::default().set_mmap_threshold(t),
        How::Mmap(_) => ReloadOptions::default().set_mmap(true),
        // a threshold of 0 asks for nothing
        _ if crate::ctl::style() % 3 == 0 => ReloadOptions::default().set_mmap_threshold(0),
        _ => ReloadOptions::default(),
    };
    // reloaders are made in all the ways offered
    let io0 = match crate::ctl::style() % 4 {
        0 => HnswIo::new_with_options(dir, base, opts),
        1 => {
            let mut io = HnswIo::default();
            io.set_values(dir, base.to_string(), opts).map_err(|e| e.to_string())?;
            if io.set_values(Path::new("/nowhere"), "none".to_string(), ReloadOptions::default()).is_ok() {
                return Err("values of a reloader set twice".to_string());
            }
            io
        }
        2 => {
            let mut io = HnswIo::new(dir, base);
            if io.set_values(Path::new("/nowhere"), "none".to_string(), ReloadOptions::default()).is_ok() {
                return Err("values of an initialized reloader set".to_string());
            }
            io.set_options(opts);
            io
        }
        _ => {
            let mut io = HnswIo::new(dir, base);
            io.set_options(opts);
            io
        }
    };
    if io0.get_basename() != base {
        return Err(format!("reloader of {base} has basename {}", io0.get_basename()));
    }
    let io = Box::into_raw(Box::new(io0));
    let ioref: &'static mut HnswIo = unsafe { &mut *io };
    // a reloader can serve again, with other options, once the first index is dropped
    if crate::ctl::reusing() {
        let other = match how {
            How::Mmap(_) => ReloadOptions::default(),
            _ => ReloadOptions::new(true),
        };
        ioref.set_options(other);
        if let Some(f) = load_def {
            drop(f(unsafe { &mut *io }));
        }
        ioref.set_options(opts);
    }
    let res = match (how, load_def) {
        (How::WithDist, _) | (_, None) => ioref
            .load_hnsw_with_dist::<T, D>(mk())
            .map_err(|e| e.to_string()),
        (_, Some(f)) => f(ioref),
    };
    match res {
        Ok(h) => Ok(Box::new(Idx {
            h: ManuallyDrop::new(h),
            io,
            vecs,
        })),
        Err(e) => {
            drop(unsafe { Box::from_raw(io) });
            Err(e)
        }
    }
}

impl<T: El, D: Distance<T> + Send + Sync + 'static> Space for Sp<T, D> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn tname(&self) -> String {
        std::any::type_name::<T>().to_string()
    }
    fn dname(&self) -> String {
        std::any::type_name::<D>().to_string()
    }
    fn elem_size(&self) -> usize {
        std::mem::size_of::<T>()
    }
    fn len(&self) -> usize {
        self.vecs.len()
    }
    fn vbytes(&self, i: usize) -> Vec<u8> {
        to_bytes(&self.vecs[i])
    }
    fn vlen(&self, i: usize) -> usize {
        self.vecs[i].len()
    }
    fn dist_qb(&self, q: usize, b: &[u8]) -> f32 {
        (self.mk)().eval(&self.vecs[q], &from_bytes::<T>(b))
    }
    fn dist_bb(&self, a: &[u8], b: &[u8]) -> f32 {
        (self.mk)().eval(&from_bytes::<T>(a), &from_bytes::<T>(b))
    }
    fn dist(&self, i: usize, j: usize) -> f32 {
        (self.mk)().eval(&self.vecs[i], &self.vecs[j])
    }
    fn create(&self, p: &Params) -> Box<dyn Index> {
        let mut h = Hnsw::<T, D>::new(p.m, p.max_elem, p.max_layer, p.efc, (self.mk)());
        if p.extend {
            h.set_extend_candidates(true);
        }
        if p.keep {
            h.set_keeping_pruned(true);
        }
        if let Some(s) = p.scale {
            h.modify_level_scale(s);
        }
        Box::new(Idx {
            h: ManuallyDrop::new(h),
            io: std::ptr::null_mut(),
            vecs: Arc::clone(&self.vecs),
        })
    }
    fn reload(&self, dir: &Path, base: &str, how: How) -> Result<Box<dyn Index>, String> {
        reload_as::<T, D>(dir, base, how, self.mk, self.load_def, Arc::clone(&self.vecs))
    }
    fn datamap(&self, dir: &Path, base: &str) -> Result<Box<dyn DMap>, String> {
        match DataMap::from_hnswdump::<T>(dir, base) {
            Ok(d) => Ok(Box::new(DMapW::<T>(d, std::marker::PhantomData))),
            Err(e) => Err(e.to_string()),
        }
    }
    fn has_default(&self) -> bool {
        self.load_def.is_some()
    }
    fn vbincode(&self, i: usize) -> Vec<u8> {
        bincode::serialize(&self.vecs[i]).expect("bincode")
    }
    fn align(&self) -> usize {
        std::mem::align_of::<T>()
    }
    fn owned(&self) -> bool {
        owns::<T>()
    }
}

/// graph only reload
pub fn reload_nodata(dir: &Path, base: &str, how: How) -> Result<Box<dyn Index>, String> {
    reload_as::<NoData, hnsw_rs::anndists::dist::NoDist>(
        dir,
        base,
        how,
        || hnsw_rs::anndists::dist::NoDist,
        Some(load_default::<NoData, hnsw_rs::anndists::dist::NoDist>),
        Arc::new(Vec::new()),
    )
}

pub fn describe(path: &Path) -> Result<Description, String> {
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    let mut r = std::io::BufReader::new(f);
    load_description(&mut r).map_err(|e| e.to_string())
}

pub fn dummy_rng() -> Rng {
    Rng::new(0)
}
