//! Random configurations and the ways to build an index.

use crate::core::*;
use crate::ctl::*;
use crate::rng::*;
use crate::spaces::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: usize,
    pub style: Style,
    pub n: usize,
    pub nq: usize,
    pub dim: usize,
    pub p: Params,
    pub lev: Lev,
    pub ids: u8,
    pub method: u8,
    pub threads: usize,
    pub seed: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct Want {
    pub nmin: usize,
    pub nmax: usize,
    /// n <= M
    pub small: bool,
    pub dumpable: bool,
    pub distinct_ids: bool,
    pub dimmax: usize,
    /// insertion by one thread only
    pub serial: bool,
    pub nq: usize,
    /// distances all different with probability 1
    pub generic: bool,
}

impl Default for Want {
    fn default() -> Self {
        Want {
            nmin: 1,
            nmax: 300,
            small: false,
            dumpable: false,
            distinct_ids: true,
            dimmax: 24,
            serial: false,
            nq: 20,
            generic: false,
        }
    }
}

const GENERIC_KINDS: [&str; 9] = [
    "f32/L2", "f32/L1", "f64/L2", "f64/L1", "f32/Count", "f64/Pad", "pair/Pair", "f32/PtrL1", "f32/PtrL2f64",
];

pub fn rand_cfg(rng: &mut Rng, w: &Want) -> Cfg {
    let kind = if w.generic {
        kind_by_name(GENERIC_KINDS[rng.below(GENERIC_KINDS.len())])
    } else {
        rng.below(KINDS.len())
    };
    let style = if w.generic {
        *rng.pick(&[Style::Uniform, Style::Gauss, Style::Clusters])
    } else {
        *rng.pick(&STYLES)
    };
    // small sizes are frequent
    let n = match rng.below(4) {
        0 => rng.range(w.nmin, w.nmin.max(w.nmax.min(4))),
        1 => rng.range(w.nmin, w.nmin.max(w.nmax.min(30))),
        _ => rng.range(w.nmin, w.nmax),
    };
    let m = if w.small {
        match rng.below(3) {
            0 => n.clamp(2, 255),
            1 => (n + rng.below(20)).clamp(2, 255),
            _ => rng.range(n.max(2), 255.max(n)),
        }
    } else {
        *rng.pick(&[2, 2, 3, 4, 5, 8, 12, 16, 24, 32, 48, 64, 100, 128, 200, 255])
    };
    let efc = match rng.below(6) {
        0 => rng.range(1, 4),
        1 => m,
        2 => n.max(1),
        3 => rng.range(1, 2 * n + 2),
        4 if n <= 120 && rng.chance(0.15) => *rng.pick(&[1 << 36, usize::MAX, 1 << 20]),
        _ => rng.range(5, 200),
    };
    let max_layer = if w.dumpable || rng.chance(0.5) {
        if rng.chance(0.8) {
            16
        } else {
            rng.range(16, 40)
        }
    } else {
        rng.range(1, 16)
    };
    let dim = if w.generic {
        rng.range(4, w.dimmax.max(4))
    } else {
        match rng.below(8) {
            0 => 1,
            1 => rng.range(0, 3),
            2 if w.dimmax > 20 => w.dimmax * 3,
            _ => rng.range(1, w.dimmax),
        }
    };
    Cfg {
        kind,
        style,
        n,
        nq: w.nq,
        dim,
        p: Params {
            m,
            max_elem: *rng.pick(&[0, 1, n, n, 10 * n, 10000]),
            max_layer,
            efc,
            extend: rng.chance(0.3),
            keep: rng.chance(0.3),
            scale: if rng.chance(0.25) { Some(rng.f() * 1.3) } else { None },
        },
        lev: pick_levels(rng),
        ids: if w.distinct_ids { rng.below(6) as u8 } else { rng.below(8) as u8 },
        method: if w.serial { *rng.pick(&[0, 1, 4]) } else { rng.below(9) as u8 },
        threads: rng.range(2, 8),
        seed: rng.next(),
    }
}

impl Cfg {
    pub fn space(&self) -> Box<dyn Space> {
        let mut r = Rng::new(self.seed ^ 0xd474);
        make(self.kind, &mut r, self.style, self.n + self.nq, self.dim)
    }

    pub fn key(&self) -> u64 {
        hash_words(&[
            self.kind as u64,
            self.style as u64,
            self.n as u64,
            self.dim as u64,
            self.p.m as u64,
            self.p.efc as u64,
            self.method as u64,
            fnv(format!("{:?}", self.lev).as_bytes()),
            self.p.max_layer as u64,
        ])
    }

    pub fn text(&self) -> String {
        format!("{} {:?}", KINDS[self.kind].name, self)
    }

    /// (vector, id) pairs in insertion order
    pub fn list(&self) -> Vec<(usize, usize)> {
        let mut r = Rng::new(self.seed ^ 0x1d5);
        let n = self.n;
        let mut ids: Vec<usize> = match self.ids {
            0 | 1 => (0..n).collect(),
            2 => (0..n).rev().collect(),
            3 => (0..n).map(|i| usize::MAX - i).collect(),
            4 => {
                // random, distinct
                (0..n).map(|i| (mix(i as u64 ^ self.seed) as usize & !0xffff) | (i & 0xffff)).collect()
            }
            5 => (0..n).map(|i| 1000 + 3 * i).collect(),
            6 => (0..n).map(|i| i / 2).collect(),
            _ => (0..n).map(|_| 42).collect(),
        };
        if self.ids == 1 {
            r.shuffle(&mut ids);
        }
        ids.into_iter().enumerate().collect()
    }

    pub fn create(&self, sp: &dyn Space) -> Box<dyn Index> {
        levels(self.seed, self.lev);
        sp.create(&self.p)
    }

    /// build, returns the index and what was inserted
    pub fn build(&self, sp: &dyn Space) -> (Box<dyn Index>, Vec<(usize, usize)>) {
        let mut ix = self.create(sp);
        let list = self.list();
        insert_all(&mut ix, &list, self.method, self.threads, self.seed);
        (ix, list)
    }

    pub fn queries(&self) -> Vec<usize> {
        (self.n..self.n + self.nq).collect()
    }
}

/// more points than 16 bits can count
pub fn hugely(rng: &mut Rng, c: &mut Cfg) {
    c.kind = kind_by_name(*rng.pick(&["f32/L2", "f64/L1", "f32/L1"]));
    c.style = Style::Uniform;
    c.n = rng.range(65537, 70000);
    c.nq = c.nq.min(16);
    c.dim = 3;
    c.p = Params {
        m: rng.range(3, 6),
        max_elem: *rng.pick(&[1, c.n]),
        max_layer: 16,
        efc: rng.range(4, 10),
        extend: false,
        keep: rng.chance(0.3),
        scale: None,
    };
    c.lev = *rng.pick(&[Lev::Natural, Lev::Natural, Lev::All(0), Lev::All(2)]);
    c.method = *rng.pick(&[2, 3, 5, 8]);
    c.threads = 8;
}

/// several ways to insert a list
pub fn insert_all(ix: &mut Box<dyn Index>, list: &[(usize, usize)], method: u8, threads: usize, seed: u64) {
    let mut rng = Rng::new(seed ^ 0xabcd);
    match method {
        0 => list.iter().for_each(|(i, id)| ix.insert(*i, *id)),
        1 => list.iter().for_each(|(i, id)| ix.insert_slice(*i, *id)),
        2 => ix.par_insert(list),
        3 => ix.par_insert_slice(list),
        4 => list.iter().for_each(|(i, id)| ix.api_insert(*i, *id)),
        5 => ix.api_par_insert(list),
        6 => {
            // pieces, alternating
            let mut at = 0;
            let mut k = 0;
            while at < list.len() {
                let e = (at + 1 + rng.below(40)).min(list.len());
                let part = &list[at..e];
                match k % 3 {
                    0 => ix.par_insert(part),
                    1 => part.iter().for_each(|(i, id)| ix.insert(*i, *id)),
                    _ => ix.par_insert_slice(part),
                }
                at = e;
                k += 1;
            }
        }
        _ => {
            // threads inserting disjoint parts at the same time, some of them by parallel insertion
            let t = threads.max(2);
            let ixr: &dyn Index = &**ix;
            let par_too = method == 8;
            std::thread::scope(|s| {
                for k in 0..t {
                    let part: Vec<(usize, usize)> = list.iter().skip(k).step_by(t).copied().collect();
                    s.spawn(move || {
                        if par_too && k % 3 == 2 {
                            ixr.par_insert(&part);
                        } else if k % 2 == 0 {
                            part.iter().for_each(|(i, id)| ixr.insert(*i, *id));
                        } else {
                            part.iter().for_each(|(i, id)| ixr.insert_slice(*i, *id));
                        }
                    });
                }
            });
        }
    }
}
