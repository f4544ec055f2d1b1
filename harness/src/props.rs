//! Table of the checks.

use crate::ctx::Ctx;
use crate::inc;
use crate::oracle::*;
use crate::{ph, pi, pg, pa, pb, pc, pd, pe, pf};

pub struct PlanSpec {
    /// (kind, number of cases in quick, worker binary)
    pub kinds: Vec<(&'static str, u64, &'static str)>,
    pub workers: usize,
    pub cpu_s: u64,
    pub rule: String,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
}

const COMMON: &str = "Cases are drawn from a seed: element type and metric (41 kinds), data style (8), size, dimension, M, construction width, flags, ids, forced or natural levels, way of inserting (9), delays injected at hooks. Non trivial: at least two points; distinct: by kind, style, size, dimension, M, width, method, levels.";

pub fn plan(prop: &str, thorough: bool) -> PlanSpec {
    let _ = thorough;
    let mut cpu_s = 100;
    let mut workers = 6;
    let mut level = "exploration";
    let mut rule = COMMON.to_string();
    let kinds: Vec<(&'static str, u64, &'static str)> = match prop {
        "C01" => vec![("mix", 700, ""), ("race", 560, ""), ("big", 8, ""), ("huge", 2, "")],
        "C02" => vec![("any", 520, ""), ("reload", 260, ""), ("large", 26, ""), ("huge", 2, "")],
        "C03" => vec![("serial", 1500, ""), ("par", 1500, ""), ("conc", 3000, ""), ("wide", 240, "")],
        "C04" => {
            cpu_s = 240;
            rule = "Independent vectors (uniform or Gaussian), 8 kinds of type and metric, n 2000 to 70000, dimension 1 to 16, M >= 12, construction width >= 100, serial and parallel insertion; judged: recall at 10 with ef 64, 128, 256 against brute force, self recall, metric evaluations. Every case is non trivial.".into();
            vec![("mid", 28, ""), ("ten", 8, ""), ("sixty", 2, "")]
        }
        "C05" => vec![("small", 1050, ""), ("any", 750, ""), ("large", 48, "")],
        "C06" => vec![("batch", 250, ""), ("readonly", 350, ""), ("huge", 2, "")],
        "C07" => {
            workers = 4;
            vec![("tiny", 1400, ""), ("small", 880, ""), ("large", 160, "")]
        }
        "C08" => vec![("any", 1125, ""), ("conc", 875, ""), ("race", 120, ""), ("large", 40, ""), ("huge", 2, "")],
        "C09" => vec![("any", 1500, ""), ("generic", 1250, ""), ("long", 160, ""), ("large", 60, ""), ("names", 12, ""), ("huge", 2, "")],
        "C10" => vec![("any", 720, ""), ("long", 120, ""), ("large", 22, ""), ("huge", 2, "")],
        "C11" => vec![("any", 1050, ""), ("generic", 450, ""), ("long", 120, ""), ("large", 30, ""), ("huge", 2, "")],
        "C12" => vec![("free", 416, ""), ("collide", 38, "")],
        "C13" => {
            rule = "For each of 38 pairs (element type, metric), an index is dumped and reloaded as each of the 37 others in all modes, and as data map; distinct: source pair and repetition.".into();
            vec![("matrix", 684, "")]
        }
        "C14" => {
            level = "fault_enumeration";
            rule = "Dump of an index of each of 41 kinds, cut at every byte of the graph file and of the data file (all cuts for small dumps; page boundaries, file ends and random cuts for larger ones), files missing, each magic number altered, the data file of another dump, ids, positions and references altered; each damaged dump reloaded in memory, mapped, graph only, described. Distinct: configuration of the dump.".into();
            vec![("every", 380, ""), ("pages", 120, ""), ("magic", 360, ""), ("mixed", 1200, "")]
        }
        "C15" => {
            level = "fault_enumeration";
            rule = "Dump of an index of each of 41 kinds with the file size limited at every byte from 0 to the largest file (small dumps), or at buffer boundaries, file ends and random places (larger ones), or one file on a full device, or files that cannot be opened. Distinct: configuration of the dump.".into();
            vec![("every", 190, ""), ("long", 80, ""), ("large", 100, "")]
        }
        "C16" => vec![("any", 480, ""), ("small", 400, ""), ("conc", 320, ""), ("levels", 16, "")],
        "C17" => vec![("law", 192, ""), ("conc", 112, ""), ("fresh", 48, ""), ("scale", 1200, "")],
        "C18" => {
            vec![("mix", 150, ""), ("held", 80, ""), ("reload", 160, ""), ("refused", 100, ""), ("panics", 300, ""), ("threads", 24, "")]
        }
        "C19" => {
            rule = "For each element type of the C interface (f32, i32, u32, u16, u8), each metric name it offers and a C function: same calls through C and through Rust with the same random seed, answers compared bit for bit; dumps, reloads, descriptions, refusals. Distinct: type, metric, size.".into();
            vec![("f32", 1080, ""), ("i32", 600, ""), ("u32", 600, ""), ("u16", 720, ""), ("u8", 600, "")]
        }
        "C21" => vec![("any", 720, ""), ("long", 48, ""), ("large", 12, "")],
        "C22" => {
            rule = "Serial insertion, the whole graph observed before and after each insertion and the step judged: element type and metric (41 kinds), data style, size 2 to 160, M 1 to 12, construction width, both flags, levels. Distinct: configuration of at least one list chosen by the rule or one complete search. In one layer, the distances the metric is asked for give the candidates.".into();
            vec![("small", 6000, ""), ("more", 700, ""), ("met", 500, "")]
        }
        "C23" => vec![("any", 900, ""), ("long", 60, ""), ("large", 24, "")],
        "C24" => {
            rule = "Indexes created for announced sizes 1 to 10^8, M 2 to 256, 1 to 16 layers (bytes reserved); the same insertions in indexes announced for other sizes (graphs and answers equal); memory of an index, of a reload and the peak of a search, k and ef up to the largest number, judged against what is stored. Distinct: configuration.".into();
            vec![("create", 120, ""), ("hint", 240, ""), ("memory", 360, "")]
        }
        "C26" => {
            workers = 4;
            rule = "seen: index of 1 to 400 vectors (M, width, layers, flags, reloaded or not), 10 searches, every distance asked of the metric noted and compared with the answer; effort: distances asked for per search and insertion on 2000 and 8000 uniform vectors of dimension 2, 4, 8. Distinct: configuration and seed.".into();
            vec![("seen", 3000, ""), ("effort", 18, "")]
        }
        "C27" => {
            rule = "A serial construction and one in which only something irrelevant is changed (nothing, ids, unit by a power of two, signs or a translation of integers, functions called, hint, logger, other indexes at the same time, searches in between, reload): places, links, flattened lists and answers compared. Distinct: configuration and seed.".into();
            vec![("same", 3000, "")]
        }
        "C28" => {
            workers = 4;
            rule = "1 to 3 indexes dumped in one directory; 2 to 6 threads do 2 to 7 operations each on them at the same time: reloads in all modes, dumps elsewhere or under other names, data maps, descriptions, searches, flattening, dumps of a shared mapped index, drops; each compared with the same operation made alone. Distinct: configuration, threads, operations.".into();
            vec![("io", 900, "")]
        }
        "C25" => {
            workers = 4;
            rule = "A metric or a filter panics at a random evaluation in searches, batches, insertions and parallel insertions, or in operations of several threads; then the index is observed. Non trivial: at least one panic was caught.".into();
            vec![("serial", 1200, ""), ("conc", 600, "")]
        }
        "C20" => {
            cpu_s = 300;
            rule = "Workloads of the other checks run in binaries built with AddressSanitizer (reads and writes outside memory, freed memory) and ThreadSanitizer (data races), with the checks of the standard library on slices and pointers on. Non trivial and distinct as in these checks.".into();
            vec![
                ("probe", crate::probe::number(), ""),
                ("asan-C01.mix", 60, "asan"),
                ("asan-C02.any", 40, "asan"),
                ("asan-C03.conc", 30, "asan"),
                ("asan-C05.any", 30, "asan"),
                ("asan-C06.readonly", 30, "asan"),
                ("asan-C07.tiny", 20, "asan"),
                ("asan-C07.small", 10, "asan"),
                ("asan-C09.any", 50, "asan"),
                ("asan-C10.any", 30, "asan"),
                ("asan-C11.any", 60, "asan"),
                ("asan-C11.long", 10, "asan"),
                ("asan-C21.any", 16, "asan"),
                ("asan-C23.any", 20, "asan"),
                ("asan-C12.free", 20, "asan"),
                ("asan-C13.matrix", 38, "asan"),
                ("asan-C14.every", 16, "asan"),
                ("asan-C14.pages", 4, "asan"),
                ("asan-C14.magic", 16, "asan"),
                ("asan-C16.any", 40, "asan"),
                ("asan-C18.held", 30, "asan"),
                ("asan-C18.reload", 30, "asan"),
                ("asan-C19.f32", 12, "asan"),
                ("asan-C19.i32", 10, "asan"),
                ("asan-C19.u32", 10, "asan"),
                ("asan-C19.u16", 10, "asan"),
                ("asan-C19.u8", 10, "asan"),
                ("asan-C25.serial", 40, "asan"),
                ("asan-C25.conc", 30, "asan"),
                ("asan-C28.io", 16, "asan"),
                ("tsan-C28.io", 24, "tsan"),
                ("tsan-C25.conc", 30, "tsan"),
                ("tsan-C01.race", 20, "tsan"),
                ("tsan-C01.mix", 30, "tsan"),
                ("tsan-C03.conc", 40, "tsan"),
                ("tsan-C06.batch", 16, "tsan"),
                ("tsan-C06.readonly", 20, "tsan"),
                ("tsan-C07.tiny", 60, "tsan"),
                ("tsan-C07.small", 30, "tsan"),
                ("tsan-C08.conc", 20, "tsan"),
                ("tsan-C16.conc", 20, "tsan"),
                ("tsan-C19.f32", 6, "tsan"),
            ]
        }
        _ => vec![],
    };
    PlanSpec {
        kinds,
        workers,
        cpu_s,
        rule,
        level,
        assumptions: vec![
            "what was not executed is not judged",
            "the metrics of the anndists crate are the reference for distances",
            "hooks (--cfg hnsw_vhook) only delay threads, choose levels and seeds",
        ],
    }
}

pub fn run(prop: &str, kind: &str, seed: u64, idx: u64, cx: &mut Ctx) -> R<()> {
    match prop {
        "C01" => pa::c01(kind, seed, cx),
        "C02" => pa::c02(kind, seed, cx),
        "C03" => pa::c03(kind, seed, cx),
        "C04" => pa::c04(kind, seed, idx, cx),
        "C05" => pa::c05(kind, seed, cx),
        "C06" => pa::c06(kind, seed, cx),
        "C07" => pa::c07(kind, seed, cx),
        "C08" => pa::c08(kind, seed, cx),
        "C09" if kind == "names" => pb::c09_names(seed, cx),
        "C09" => pb::c09(kind, seed, cx),
        "C10" => pb::c10(kind, seed, cx),
        "C11" => pb::c11(kind, seed, cx),
        "C12" => pb::c12(kind, seed, cx),
        "C13" => pb::c13(kind, seed, idx, cx),
        "C14" => pb::c14(kind, seed, idx, cx),
        "C15" => pb::c15(kind, seed, idx, cx),
        "C16" => pb::c16(kind, seed, cx),
        "C17" => pc::c17(kind, seed, idx, cx),
        "C18" => pc::c18(kind, seed, idx, cx),
        "C19" => pf::c19(kind, seed, idx, cx),
        "C21" => pd::c21(kind, seed, cx),
        "C26" => pg::c26(kind, seed, idx, cx),
        "C27" => ph::c27(kind, seed, cx),
        "C28" => pi::c28(kind, seed, cx),
        "C22" if kind == "met" => pg::met(seed, cx),
        "C22" => pd::c22(kind, seed, cx),
        "C23" => pd::c23(kind, seed, cx),
        "C24" => pe::c24(kind, seed, cx),
        "C25" => pe::c25(kind, seed, cx),
        "C20" => pc::c20(kind, seed, idx, cx),
        _ => inc!("no such property"),
    }
}
