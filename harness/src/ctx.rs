//! What a case reports besides its verdict.

use std::collections::BTreeMap;
use std::path::PathBuf;

pub struct Ctx {
    pub dir: PathBuf,
    /// observations judged by an oracle
    pub events: u64,
    /// keys of distinct non trivial cases
    pub keys: Vec<u64>,
    pub samples: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub thorough: bool,
    /// schedule hashes
    pub inter: Vec<u64>,
    sub: usize,
}

impl Ctx {
    pub fn new(dir: PathBuf, thorough: bool) -> Ctx {
        Ctx {
            dir,
            events: 0,
            keys: vec![],
            samples: vec![],
            counts: BTreeMap::new(),
            thorough,
            inter: vec![],
            sub: 0,
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn key(&mut self, k: u64) {
        if self.keys.len() < 4096 {
            self.keys.push(k);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 2 {
            self.samples.push(s.chars().take(400).collect());
        }
    }
    /// records the schedule seen since the last ctl::inject
    pub fn schedule(&mut self) {
        let (nt, h) = crate::ctl::interleaving();
        if nt > 1 && self.inter.len() < 4096 {
            self.inter.push(h);
        }
    }
    /// a fresh empty directory
    pub fn fresh(&mut self) -> PathBuf {
        self.sub += 1;
        let d = self.dir.join(format!("d{}", self.sub));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    }
}
