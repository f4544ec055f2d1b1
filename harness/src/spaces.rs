//! The element types, metrics and data styles the workloads run on.

use crate::core::*;
use crate::rng::*;
use hnsw_rs::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

// ---------------- user defined element types and metrics

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
#[repr(C)]
pub struct Rgb(pub [u8; 3]);

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
#[repr(C)]
pub struct Wide(pub u128);

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
#[repr(C)]
pub struct Pair {
    pub a: f64,
    pub b: f64,
}

/// Euclidean metric counting its evaluations
#[derive(Clone, Copy, Default)]
pub struct CountL2;
pub static EVALS: AtomicU64 = AtomicU64::new(0);
impl Distance<f32> for CountL2 {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        EVALS.fetch_add(1, Ordering::Relaxed);
        a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f32>().sqrt()
    }
}

#[derive(Clone, Copy, Default)]
pub struct RgbDist;
impl Distance<Rgb> for RgbDist {
    fn eval(&self, a: &[Rgb], b: &[Rgb]) -> f32 {
        a.iter()
            .zip(b)
            .map(|(x, y)| (0..3).map(|i| (x.0[i] as f32 - y.0[i] as f32).abs()).sum::<f32>())
            .sum()
    }
}

#[derive(Clone, Copy, Default)]
pub struct WideDist;
impl Distance<Wide> for WideDist {
    fn eval(&self, a: &[Wide], b: &[Wide]) -> f32 {
        a.iter().zip(b).map(|(x, y)| (x.0 ^ y.0).count_ones() as f32).sum()
    }
}

#[derive(Clone, Copy, Default)]
pub struct PairDist;
impl Distance<Pair> for PairDist {
    fn eval(&self, a: &[Pair], b: &[Pair]) -> f32 {
        a.iter()
            .zip(b)
            .map(|(x, y)| ((x.a - y.a).abs() + (x.b - y.b).abs()) as f32)
            .sum()
    }
}

/// types of the same last name, in different modules and inside the same generic type
pub mod left {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
    #[repr(C)]
    pub struct Cell(pub i16);
}
pub mod right {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
    #[repr(C)]
    pub struct Cell(pub u16);
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
#[repr(C)]
pub struct Boxed<C>(pub C);
pub trait Val {
    fn val(&self) -> f32;
}
impl Val for left::Cell {
    fn val(&self) -> f32 {
        self.0 as f32
    }
}
impl Val for right::Cell {
    fn val(&self) -> f32 {
        self.0 as f32
    }
}
impl<C: Val> Val for Boxed<C> {
    fn val(&self) -> f32 {
        self.0.val()
    }
}
#[derive(Clone, Copy, Default)]
pub struct CellDist;
impl<V: Val + Send + Sync> Distance<V> for CellDist {
    fn eval(&self, a: &[V], b: &[V]) -> f32 {
        a.iter().zip(b).map(|(x, y)| (x.val() - y.val()).abs()).sum()
    }
}

/// the name of a metric of the library is the end of this one
#[derive(Clone, Copy, Default)]
pub struct NotDistL2;
impl Distance<f32> for NotDistL2 {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        2. * fn_l1_f32(a, b)
    }
}

/// long names (the format allows 256 bytes)
pub mod a_module_whose_name_is_rather_long_to_make_names_of_types_in_it_long {
    pub mod and_a_second_one_which_goes_on_and_on_to_make_them_even_longer_than_that {
        use super::super::*;
        #[derive(Clone, Copy, Default)]
        pub struct TheMetricOfWhichTheFullNameWithModulesHasMoreThanTwoHundredCharacters;
        #[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
        #[repr(C)]
        pub struct TheElementOfWhichTheFullNameWithModulesHasMoreThanTwoHundredCharacters(pub i32);
    }
}
pub use a_module_whose_name_is_rather_long_to_make_names_of_types_in_it_long::and_a_second_one_which_goes_on_and_on_to_make_them_even_longer_than_that::{
    TheElementOfWhichTheFullNameWithModulesHasMoreThanTwoHundredCharacters as LongEl,
    TheMetricOfWhichTheFullNameWithModulesHasMoreThanTwoHundredCharacters as LongDist,
};
impl Distance<LongEl> for LongDist {
    fn eval(&self, a: &[LongEl], b: &[LongEl]) -> f32 {
        a.iter().zip(b).map(|(x, y)| (x.0 as f32 - y.0 as f32).abs()).sum()
    }
}

/// elements that own memory
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tree {
    Leaf(i32),
    Node(Box<Tree>, Option<String>),
}
impl Tree {
    fn of(x: f64) -> Tree {
        let v = (x * 1e4) as i32;
        match v.rem_euclid(3) {
            0 => Tree::Leaf(v),
            1 => Tree::Node(Box::new(Tree::Leaf(v)), None),
            _ => Tree::Node(Box::new(Tree::Node(Box::new(Tree::Leaf(v)), Some(String::new()))), Some(v.to_string())),
        }
    }
}
impl Val for Tree {
    fn val(&self) -> f32 {
        match self {
            Tree::Leaf(v) => *v as f32,
            Tree::Node(b, s) => b.val() + s.as_ref().map_or(0., |s| s.len() as f32),
        }
    }
}
#[derive(Clone, Copy, Default)]
pub struct WordDist;
impl<S: AsRef<[u8]> + Send + Sync> Distance<S> for WordDist {
    fn eval(&self, a: &[S], b: &[S]) -> f32 {
        let one = |x: &[u8], y: &[u8]| x.len().abs_diff(y.len()) as f32 + x.iter().zip(y).map(|(p, q)| p.abs_diff(*q) as f32 / 256.).sum::<f32>();
        a.iter().zip(b).map(|(x, y)| one(x.as_ref(), y.as_ref())).sum::<f32>() + 3. * a.len().abs_diff(b.len()) as f32
    }
}

/// vectors of any length, missing components count as 0
#[derive(Clone, Copy, Default)]
pub struct PadL1;
macro_rules! padl1 {
    ($t:ty) => {
        impl Distance<$t> for PadL1 {
            fn eval(&self, a: &[$t], b: &[$t]) -> f32 {
                let n = a.len().max(b.len());
                let mut s = 0f64;
                for i in 0..n {
                    let x = a.get(i).copied().unwrap_or_default() as f64;
                    let y = b.get(i).copied().unwrap_or_default() as f64;
                    s += (x - y).abs();
                }
                (s + 0.25 * (a.len() as f64 - b.len() as f64).abs()) as f32
            }
        }
    };
}
padl1!(f64);
padl1!(f32);
padl1!(i8);
padl1!(u8);
padl1!(u16);
padl1!(i64);

pub fn fn_l1_f32(a: &[f32], b: &[f32]) -> f32 {
    a.iter().zip(b).map(|(x, y)| (x - y).abs()).sum()
}
pub fn fn_l2_f64(a: &[f32], b: &[f32]) -> f64 {
    a.iter().zip(b).map(|(x, y)| ((x - y) as f64).powi(2)).sum::<f64>().sqrt()
}
pub extern "C" fn c_l1_f32(a: *const f32, b: *const f32, n: core::ffi::c_ulonglong) -> f32 {
    let (a, b) = unsafe { (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize)) };
    fn_l1_f32(a, b)
}
macro_rules! c_l1 {
    ($name:ident, $t:ty) => {
        pub extern "C" fn $name(a: *const $t, b: *const $t, n: core::ffi::c_ulonglong) -> f32 {
            let (a, b) =
                unsafe { (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize)) };
            a.iter().zip(b).map(|(x, y)| (*x as f32 - *y as f32).abs()).sum()
        }
    };
}
c_l1!(c_l1_i32, i32);
c_l1!(c_l1_u32, u32);
c_l1!(c_l1_u16, u16);
c_l1!(c_l1_u8, u8);

// ---------------- data

/// how the raw coordinates (about [-1,1]) are drawn
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Uniform,
    Gauss,
    Clusters,
    Grid,
    Dups,
    Constant,
    Sorted,
    Mixed,
}

pub const STYLES: [Style; 8] = [
    Style::Uniform,
    Style::Gauss,
    Style::Clusters,
    Style::Grid,
    Style::Dups,
    Style::Constant,
    Style::Sorted,
    Style::Mixed,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Len {
    Fixed(usize),
    /// lengths in [0, n]
    Var(usize),
}

fn raw(rng: &mut Rng, style: Style, n: usize, len: Len) -> Vec<Vec<f64>> {
    let dim0 = match len {
        Len::Fixed(d) => d,
        Len::Var(d) => d,
    };
    let nc = rng.range(2, 6);
    let centers: Vec<Vec<f64>> = (0..nc).map(|_| (0..dim0).map(|_| rng.s()).collect()).collect();
    let dups: Vec<Vec<f64>> = (0..(n / 5).max(1))
        .map(|_| (0..dim0).map(|_| rng.s()).collect())
        .collect();
    (0..n)
        .map(|i| {
            let st = if style == Style::Mixed {
                STYLES[rng.below(7)]
            } else {
                style
            };
            let mut v: Vec<f64> = match st {
                Style::Uniform | Style::Mixed => (0..dim0).map(|_| rng.s()).collect(),
                Style::Gauss => (0..dim0).map(|_| rng.gauss().clamp(-4., 4.) / 4.).collect(),
                Style::Clusters => {
                    let c = &centers[rng.below(nc)];
                    c.iter().map(|x| (x + 0.02 * rng.gauss()).clamp(-1., 1.)).collect()
                }
                Style::Grid => (0..dim0).map(|_| (rng.below(3) as f64 - 1.) * 0.8).collect(),
                Style::Dups => dups[rng.below(dups.len())].clone(),
                Style::Constant => vec![0.; dim0],
                Style::Sorted => {
                    let t = 2. * (i as f64) / (n as f64) - 1.;
                    (0..dim0).map(|_| t).collect()
                }
            };
            if let Len::Var(d) = len {
                let l = if rng.chance(0.1) { 0 } else { rng.range(0, d) };
                v.truncate(l);
            }
            v
        })
        .collect()
}

fn conv<T>(raw: &[Vec<f64>], f: impl Fn(&[f64]) -> Vec<T>) -> Arc<Vec<Vec<T>>> {
    Arc::new(raw.iter().map(|v| f(v)).collect())
}

fn each<T>(f: impl Fn(f64) -> T) -> impl Fn(&[f64]) -> Vec<T> {
    move |v: &[f64]| v.iter().map(|x| f(*x)).collect()
}

fn unit(v: &[f64]) -> Vec<f64> {
    let mut w = v.to_vec();
    let n = w.iter().map(|x| x * x).sum::<f64>().sqrt();
    if n < 1e-9 {
        if !w.is_empty() {
            w[0] = 0.999;
        }
    } else {
        for x in &mut w {
            *x = *x / n * if v.len() < 2000 { 0.999 } else { 0.9 };
        }
    }
    w
}

fn prob(v: &[f64]) -> Vec<f64> {
    let w: Vec<f64> = v.iter().map(|x| x.abs() + 0.01).collect();
    let s: f64 = w.iter().sum();
    // (the metrics assert that their sums, which are rounded, are not above 1)
    let most = if v.len() < 2000 { 0.9999 } else { 0.9 };
    w.iter().map(|x| x / s * most).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sort {
    /// all vectors of same length >= 1
    Eq,
    /// idem, zero length possible too
    Any,
    /// lengths can differ
    VarLen,
    /// only well separated probability vectors
    Prob,
}

pub struct Kind {
    pub name: &'static str,
    pub sort: Sort,
    build: fn(&[Vec<f64>]) -> Box<dyn Space>,
}

macro_rules! kind {
    ($name:expr, $sort:expr, $t:ty, $d:ty, $conv:expr) => {
        Kind {
            name: $name,
            sort: $sort,
            build: |r| {
                Box::new(Sp::<$t, $d> {
                    name: $name,
                    vecs: conv(r, $conv),
                    mk: || <$d>::default(),
                    load_def: Some(load_default::<$t, $d>),
                })
            },
        }
    };
    ($name:expr, $sort:expr, $t:ty, $d:ty, $conv:expr, $mk:expr) => {
        Kind {
            name: $name,
            sort: $sort,
            build: |r| {
                Box::new(Sp::<$t, $d> {
                    name: $name,
                    vecs: conv(r, $conv),
                    mk: $mk,
                    load_def: None,
                })
            },
        }
    };
}

pub static KINDS: &[Kind] = &[
    kind!("f32/L2", Sort::Eq, f32, DistL2, each(|x| x as f32)),
    kind!("f32/L1", Sort::Eq, f32, DistL1, each(|x| (x * 1e3) as f32)),
    kind!("f32/Cosine", Sort::Eq, f32, DistCosine, each(|x| x as f32)),
    kind!("f32/Dot", Sort::Eq, f32, DistDot, |v: &[f64]| unit(v).iter().map(|x| *x as f32).collect()),
    kind!("f32/Hellinger", Sort::Eq, f32, DistHellinger, |v: &[f64]| prob(v).iter().map(|x| *x as f32).collect()),
    kind!("f32/Jeffreys", Sort::Eq, f32, DistJeffreys, |v: &[f64]| prob(v).iter().map(|x| *x as f32).collect()),
    kind!("f32/JensenShannon", Sort::Prob, f32, DistJensenShannon, |v: &[f64]| prob(v).iter().map(|x| *x as f32).collect()),
    kind!("f32/Count", Sort::Eq, f32, CountL2, each(|x| x as f32)),
    kind!("f64/L2", Sort::Eq, f64, DistL2, each(|x| x * 1e6)),
    kind!("f64/L1", Sort::Eq, f64, DistL1, each(|x| x)),
    kind!("f64/Cosine", Sort::Eq, f64, DistCosine, each(|x| x)),
    kind!("i32/L2", Sort::Eq, i32, DistL2, each(|x| (x * 1e5) as i32)),
    kind!("i32/Hamming", Sort::Eq, i32, DistHamming, each(|x| (x * 2.2) as i32)),
    kind!("i64/L1", Sort::Eq, i64, DistL1, each(|x| (x * 1e6) as i64)),
    kind!("u8/L1", Sort::Eq, u8, DistL1, each(|x| ((x + 1.) * 127.) as u8)),
    kind!("u8/Jaccard", Sort::Eq, u8, DistJaccard, each(|x| ((x + 1.) * 40.) as u8)),
    kind!("u16/L2", Sort::Eq, u16, DistL2, each(|x| ((x + 1.) * 3000.) as u16)),
    kind!("u16/Levenshtein", Sort::VarLen, u16, DistLevenshtein, each(|x| ((x + 1.) * 2.) as u16)),
    kind!("u32/Jaccard", Sort::Eq, u32, DistJaccard, each(|x| ((x + 1.) * 1e9) as u32)),
    kind!("u32/L2", Sort::Eq, u32, DistL2, each(|x| ((x + 1.) * 1e4) as u32)),
    kind!("u64/Hamming", Sort::Eq, u64, DistHamming, each(|x| ((x + 1.) * 2.5) as u64)),
    kind!("i16/Hamming", Sort::Eq, i16, DistHamming, each(|x| (x * 3.) as i16)),
    kind!("i8/Pad", Sort::VarLen, i8, PadL1, each(|x| (x * 120.) as i8)),
    kind!("f64/Pad", Sort::VarLen, f64, PadL1, each(|x| x)),
    kind!("i64/Pad", Sort::VarLen, i64, PadL1, each(|x| (x * 1000.) as i64)),
    kind!("rgb/Rgb", Sort::Any, Rgb, RgbDist, each(|x| Rgb([((x + 1.) * 120.) as u8, ((x + 1.) * 1000.) as u64 as u8, (x.abs() * 200.) as u8]))),
    kind!("u128/Bits", Sort::Any, Wide, WideDist, each(|x| Wide(mix((x * 1e6) as i64 as u64) as u128 * 0x1_0000_0001_0000_0001))),
    kind!("pair/Pair", Sort::Any, Pair, PairDist, each(|x| Pair { a: x, b: x * x })),
    kind!("long/Long", Sort::Any, LongEl, LongDist, each(|x| LongEl((x * 1e4) as i32))),
    kind!("left/Cell", Sort::Any, left::Cell, CellDist, each(|x| left::Cell((x * 1e4) as i16))),
    kind!("right/Cell", Sort::Any, right::Cell, CellDist, each(|x| right::Cell(((x + 1.) * 1e4) as u16))),
    kind!("left/Boxed", Sort::Any, Boxed<left::Cell>, CellDist, each(|x| Boxed(left::Cell((x * 100.) as i16)))),
    kind!("right/Boxed", Sort::Any, Boxed<right::Cell>, CellDist, each(|x| Boxed(right::Cell(((x + 1.) * 100.) as u16)))),
    kind!("string/Word", Sort::VarLen, String, WordDist, each(|x| format!("{}{:.3}", "é".repeat(((x + 1.) * 4.) as usize), x).split_off(if x < -0.8 { 5 } else { 0 }))),
    kind!("blob/Word", Sort::VarLen, Vec<u8>, WordDist, each(|x| (0..((x + 1.) * 20.) as u64).map(|i| mix(i.wrapping_add((x * 30.) as i64 as u64)) as u8).collect())),
    kind!("tree/Val", Sort::Any, Tree, CellDist, each(Tree::of)),
    kind!("f32/NotL2", Sort::Any, f32, NotDistL2, each(|x| x as f32)),
    kind!("f32/PtrL1", Sort::Any, f32, DistPtr<f32, f32>, each(|x| x as f32), || DistPtr::<f32, f32>::new(fn_l1_f32)),
    kind!("f32/PtrL2f64", Sort::Eq, f32, DistPtr<f32, f64>, each(|x| x as f32), || DistPtr::<f32, f64>::new(fn_l2_f64)),
    kind!("f32/FnL1", Sort::Any, f32, DistFn<f32>, each(|x| x as f32), || DistFn::<f32>::new(Box::new(|a: &[f32], b: &[f32]| fn_l1_f32(a, b)))),
    kind!("f32/CFFI", Sort::Eq, f32, DistCFFI<f32>, each(|x| x as f32), || DistCFFI::<f32>::new(c_l1_f32)),
];

/// a space of `n` vectors of kind `k`
pub fn make(k: usize, rng: &mut Rng, style: Style, n: usize, dim: usize) -> Box<dyn Space> {
    let kind = &KINDS[k % KINDS.len()];
    let (style, len) = match kind.sort {
        Sort::Eq => (style, Len::Fixed(dim.max(1))),
        Sort::Any => (style, Len::Fixed(dim)),
        Sort::VarLen => (style, if rng.chance(0.8) { Len::Var(dim.max(1)) } else { Len::Fixed(dim) }),
        Sort::Prob => (Style::Uniform, Len::Fixed(dim.max(5))),
    };
    let r = raw(rng, style, n, len);
    (kind.build)(&r)
}

pub fn kind_by_name(name: &str) -> usize {
    KINDS.iter().position(|k| k.name == name).expect("kind")
}
