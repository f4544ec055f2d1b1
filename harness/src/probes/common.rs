#![allow(unused)]
use hnsw_rs::prelude::*;
use hnsw_rs::datamap::DataMap;
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;
const D: usize = 64;
const N: usize = 400;
fn v(i: usize) -> Vec<f32> {
    (0..D).map(|k| ((i * 7919 + k * 104729) % 1009) as f32).collect()
}
fn dumped() -> String {
    let h = Hnsw::<f32, DistL2>::new(8, N, 16, 20, DistL2 {});
    for i in 0..N {
        h.insert((&v(i), i));
    }
    h.file_dump(Path::new("."), "p").unwrap()
}
fn mapped(b: &str) -> HnswIo {
    HnswIo::new_with_options(Path::new("."), b, ReloadOptions::new(true))
}
fn used<D: Distance<f32> + Send + Sync>(h: &Hnsw<f32, D>) {
    for i in 0..N {
        assert!(!h.search(&v(i), 3, 20).is_empty());
    }
}
