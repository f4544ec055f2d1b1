//! Control of the hooks compiled in the library by `--cfg hnsw_vhook`: levels, seeds, delays. And what the monitors saw of them.

use crate::rng::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const NSITES: usize = 16;
static HITS: [AtomicU64; NSITES] = [const { AtomicU64::new(0) }; NSITES];
static INJ_SEED: AtomicU64 = AtomicU64::new(0);
static INJ_P: AtomicU32 = AtomicU32::new(0); // per 65536
static INJ_KIND: AtomicU32 = AtomicU32::new(0);
static RV_SITE: AtomicU32 = AtomicU32::new(0);
static RV_K: AtomicU32 = AtomicU32::new(0);
static RV_CNT: AtomicU32 = AtomicU32::new(0);
static TID: AtomicU32 = AtomicU32::new(1);
const TRACE_MAX: usize = 4096;
static TRACE: [AtomicU32; TRACE_MAX] = [const { AtomicU32::new(0) }; TRACE_MAX];
static TRACE_N: AtomicUsize = AtomicUsize::new(0);

struct Tl {
    tid: u32,
    seed: u64,
    rng: Rng,
}
thread_local! {
    static TL: RefCell<Tl> = RefCell::new(Tl { tid: TID.fetch_add(1, Relaxed), seed: 0, rng: Rng::new(0) });
}

#[derive(Clone, Copy, Debug)]
pub enum Inj {
    Off,
    /// only record events
    Record,
    /// random spins, yields, short sleeps, with this probability at each site
    Random(f64),
    /// the first k threads at a site wait for each other (bounded), and random delays elsewhere
    Rendezvous(u32, u32, f64),
}

fn site(s: u32) {
    if (s as usize) < NSITES {
        HITS[s as usize].fetch_add(1, Relaxed);
    }
    TL.with(|tl| {
        let mut tl = tl.borrow_mut();
        let n = TRACE_N.load(Relaxed);
        if n < TRACE_MAX {
            let n = TRACE_N.fetch_add(1, Relaxed);
            if n < TRACE_MAX {
                TRACE[n].store((tl.tid << 8) | s, Relaxed);
            }
        }
        let p = INJ_P.load(Relaxed);
        if RV_K.load(Relaxed) > 0 && RV_SITE.load(Relaxed) == s {
            let k = RV_K.load(Relaxed);
            if RV_CNT.load(Relaxed) < k {
                RV_CNT.fetch_add(1, Relaxed);
                let mut i = 0;
                while RV_CNT.load(Relaxed) < k && i < 3000 {
                    i += 1;
                    if i % 8 == 0 {
                        std::thread::yield_now();
                    } else {
                        std::hint::spin_loop();
                    }
                }
            }
        }
        if p == 0 {
            return;
        }
        let seed = INJ_SEED.load(Relaxed);
        if tl.seed != seed {
            tl.seed = seed;
            tl.rng = Rng::new(seed ^ ((tl.tid as u64) << 32));
        }
        if (tl.rng.next() & 0xffff) as u32 >= p {
            return;
        }
        match tl.rng.below(8) {
            0..=2 => std::thread::yield_now(),
            3..=5 => {
                for _ in 0..tl.rng.below(2000) {
                    std::hint::spin_loop();
                }
            }
            6 => std::thread::sleep(std::time::Duration::from_micros(1)),
            _ => {
                let us = tl.rng.below(120) as u64;
                std::thread::sleep(std::time::Duration::from_micros(us));
            }
        }
    });
}

pub fn inject(seed: u64, k: Inj) {
    TRACE_N.store(0, Relaxed);
    INJ_SEED.store(seed | 1, Relaxed);
    RV_K.store(0, Relaxed);
    RV_CNT.store(0, Relaxed);
    INJ_P.store(0, Relaxed);
    let _ = INJ_KIND.load(Relaxed);
    match k {
        Inj::Off => hnsw_rs::vhook::set_point_fn(None),
        Inj::Record => hnsw_rs::vhook::set_point_fn(Some(site)),
        Inj::Random(p) => {
            INJ_P.store((p * 65536.) as u32, Relaxed);
            hnsw_rs::vhook::set_point_fn(Some(site))
        }
        Inj::Rendezvous(s, k, p) => {
            RV_SITE.store(s, Relaxed);
            RV_K.store(k, Relaxed);
            INJ_P.store((p * 65536.) as u32, Relaxed);
            hnsw_rs::vhook::set_point_fn(Some(site))
        }
    }
}

/// another rendezvous may take place
pub fn rearm() {
    RV_CNT.store(0, Relaxed);
}

/// hash of the order in which the threads went through the sites (threads renumbered by first occurrence)
pub fn interleaving() -> (usize, u64) {
    let n = TRACE_N.load(Relaxed).min(TRACE_MAX);
    let mut names: Vec<u32> = Vec::new();
    let mut h = 7u64;
    for t in TRACE.iter().take(n) {
        let v = t.load(Relaxed);
        let (tid, s) = (v >> 8, v & 0xff);
        let k = match names.iter().position(|x| *x == tid) {
            Some(k) => k,
            None => {
                names.push(tid);
                names.len() - 1
            }
        };
        h = mix(h ^ ((k as u64) << 8 | s as u64));
    }
    (names.len(), h)
}

pub fn hits() -> u64 {
    HITS.iter().map(|h| h.load(Relaxed)).sum()
}

pub fn hits_by_site() -> Vec<u64> {
    HITS.iter().map(|h| h.load(Relaxed)).collect()
}

// ---------------- levels

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lev {
    /// as drawn by the library
    Natural,
    /// all in this layer
    All(usize),
    /// uniform in [a, b]
    Uniform(usize, usize),
    /// geometric of ratio 1/2
    Half,
    /// in layers that are multiples of the argument only
    Holes(usize),
    /// 0, 1, 2 ... increasing with the number of points
    Up(usize),
    Down(usize),
}

static LEV_KIND: AtomicU32 = AtomicU32::new(0);
static LEV_A: AtomicUsize = AtomicUsize::new(0);
static LEV_B: AtomicUsize = AtomicUsize::new(0);
static LEV_CNT: AtomicU64 = AtomicU64::new(0);
static LEV_SEED: AtomicU64 = AtomicU64::new(0);
static SEED_ON: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0);

fn level_fn(drawn: usize, bound: usize) -> usize {
    let n = LEV_CNT.fetch_add(1, Relaxed);
    let r = mix(LEV_SEED.load(Relaxed) ^ mix(n)) as usize >> 8;
    let a = LEV_A.load(Relaxed);
    let b = LEV_B.load(Relaxed);
    let l = match LEV_KIND.load(Relaxed) {
        1 => a,
        2 => a + r % (b - a + 1),
        3 => (r | 1 << 40).trailing_zeros() as usize,
        4 => a * (r % 6),
        5 => (n as usize) / a.max(1),
        6 => b.saturating_sub(n as usize / a.max(1)),
        _ => drawn,
    };
    l.min(bound - 1)
}

fn seed_fn() -> Option<u64> {
    if SEED_ON.load(Relaxed) {
        Some(SEED.load(Relaxed))
    } else {
        None
    }
}

/// must be called before the creation of the index
pub fn levels(seed: u64, l: Lev) {
    LEV_CNT.store(0, Relaxed);
    LEV_SEED.store(seed, Relaxed);
    let (k, a, b) = match l {
        Lev::Natural => (0, 0, 0),
        Lev::All(a) => (1, a, 0),
        Lev::Uniform(a, b) => (2, a, b),
        Lev::Half => (3, 0, 0),
        Lev::Holes(a) => (4, a, 0),
        Lev::Up(a) => (5, a, 0),
        Lev::Down(a) => (6, a, 15),
    };
    LEV_A.store(a, Relaxed);
    LEV_B.store(b, Relaxed);
    LEV_KIND.store(k, Relaxed);
    hnsw_rs::vhook::set_level_fn(if k == 0 { None } else { Some(level_fn) });
    SEED.store(seed, Relaxed);
    SEED_ON.store(true, Relaxed);
    hnsw_rs::vhook::set_seed_fn(Some(seed_fn));
}

/// no control of levels nor of seed
pub fn levels_free() {
    hnsw_rs::vhook::set_level_fn(None);
    SEED_ON.store(false, Relaxed);
}

pub fn pick_levels(rng: &mut Rng) -> Lev {
    match rng.below(14) {
        0 => Lev::All(0),
        1 => Lev::All(rng.range(1, 4)),
        2 => Lev::All(15),
        3 => Lev::Uniform(0, rng.range(1, 15)),
        4 => {
            let a = rng.range(1, 5);
            Lev::Uniform(a, a + rng.range(0, 5))
        }
        5 | 6 => Lev::Half,
        7 => Lev::Holes(rng.range(2, 4)),
        8 => Lev::Up(rng.range(1, 6)),
        9 => Lev::Down(rng.range(1, 6)),
        _ => Lev::Natural,
    }
}

// ---------------- how the library is used, besides: logging level, way of making reloaders

static STYLE: AtomicU32 = AtomicU32::new(0);
static REUSE: AtomicBool = AtomicBool::new(false);
static LOGGED: AtomicU64 = AtomicU64::new(0);

struct Sink;
struct Counter(u64);
impl std::fmt::Write for Counter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // messages are formatted, as a user's logger does, and forgotten
        let mut c = Counter(0);
        let _ = std::fmt::write(&mut c, *r.args());
        LOGGED.fetch_add(1, Relaxed);
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

/// small: the case is small enough for all messages to be formatted
pub fn usage(seed: u64, small: bool) {
    let _ = log::set_logger(&SINK);
    let r = mix(seed ^ 0x10f);
    STYLE.store(r as u32 >> 8, Relaxed);
    REUSE.store(small && (r >> 40) % 6 == 0, Relaxed);
    log::set_max_level(match r % 24 {
        0 if small => log::LevelFilter::Trace,
        0 | 1 => log::LevelFilter::Debug,
        2 | 3 => log::LevelFilter::Info,
        _ => log::LevelFilter::Off,
    });
}

pub fn style() -> u32 {
    STYLE.fetch_add(1, Relaxed)
}

pub fn logged() -> u64 {
    LOGGED.load(Relaxed)
}

/// reloaders are used twice in this case
pub fn reusing() -> bool {
    REUSE.load(Relaxed)
}
