//! Supervisor: runs cases in worker processes, judges crashes and hangs, writes evidence and replay files.

use crate::ctx::Ctx;
use crate::oracle::Fail;
use crate::props;
use crate::rng::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prop: String,
    pub kind: String,
    pub seed: u64,
    pub idx: u64,
    /// which worker binary: "", "asan", "tsan"
    pub bin: String,
    pub thorough: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
struct Answer {
    res: String,
    msg: String,
    events: u64,
    keys: Vec<u64>,
    inter: Vec<u64>,
    samples: Vec<String>,
    counts: BTreeMap<String, u64>,
    ms: u64,
}

// ------------------------------------------------------------------ worker

pub fn run_case(c: &Case, dir: &Path) -> (Result<(), Fail>, Ctx) {
    let mut cx = Ctx::new(dir.to_path_buf(), c.thorough);
    crate::ctl::inject(c.seed, crate::ctl::Inj::Off);
    crate::ctl::levels_free();
    let big = ["large", "big", "huge", "mid", "ten", "law", "levels", "threads", "wide"].iter().any(|k| c.kind.ends_with(k));
    crate::ctl::usage(c.seed, !big);
    let l0 = crate::ctl::logged();
    let h0 = crate::ctl::hits();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&c.prop, &c.kind, c.seed, c.idx, &mut cx)));
    crate::ctl::inject(c.seed, crate::ctl::Inj::Off);
    crate::ctl::levels_free();
    cx.count("hook_events", crate::ctl::hits() - h0);
    cx.count("log_messages", crate::ctl::logged() - l0);
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(Fail::Viol(format!("panic: {m}")))
        }
    };
    (r, cx)
}

pub fn worker(dir: &str) {
    // the library prints on standard output: answers go through another descriptor
    let out = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        std::fs::File::from_raw_fd(fd)
    };
    let mut out = out;
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let c: Case = match serde_json::from_str(&line) {
            Ok(c) => c,
            Err(_) => break,
        };
        let d = PathBuf::from(dir);
        let _ = std::fs::create_dir_all(&d);
        let t = Instant::now();
        let (r, cx) = run_case(&c, &d);
        let mut a = Answer {
            events: cx.events,
            keys: cx.keys,
            inter: cx.inter,
            samples: cx.samples,
            counts: cx.counts,
            ms: t.elapsed().as_millis() as u64,
            ..Default::default()
        };
        match r {
            Ok(()) => a.res = "ok".into(),
            Err(Fail::Viol(m)) => {
                a.res = "viol".into();
                a.msg = m;
            }
            Err(Fail::Inc(m)) => {
                a.res = "inc".into();
                a.msg = m;
            }
        }
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
            }
        }
        let mut s = serde_json::to_string(&a).unwrap();
        s.push('\n');
        if out.write_all(s.as_bytes()).is_err() {
            break;
        }
    }
}

// ------------------------------------------------------------------ supervisor

struct W {
    child: Child,
    rx: mpsc::Receiver<Option<String>>,
    err: Arc<Mutex<Vec<u8>>>,
    reader: Option<std::thread::JoinHandle<()>>,
}

impl W {
    /// what the worker wrote last on standard error; the worker has ended or is going to be killed
    fn tail(&mut self, n: usize, ended: bool) -> String {
        if ended {
            if let Some(h) = self.reader.take() {
                let t = Instant::now();
                while !h.is_finished() && t.elapsed().as_secs() < 3 {
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
        }
        let v = self.err.lock().unwrap();
        excerpt(&String::from_utf8_lossy(&v), n)
    }
}

const ERR_MAX: usize = 256 << 10;

fn bin_path(bin: &str) -> Option<PathBuf> {
    match bin {
        "" => Some(std::env::current_exe().unwrap()),
        "asan" => std::env::var("VCHK_ASAN").ok().map(PathBuf::from),
        "tsan" => std::env::var("VCHK_TSAN").ok().map(PathBuf::from),
        _ => None,
    }
}

fn spawn(bin: &str, scratch: &Path, n: usize) -> W {
    let dir = scratch.join(format!("w{n}"));
    let mut cmd = Command::new(bin_path(bin).expect("worker binary"));
    cmd.arg("worker")
        .arg(&dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env("RAYON_NUM_THREADS", "4")
        .env("RUST_BACKTRACE", "0")
        .env_remove("RUST_LOG")
        .env("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0:quarantine_size_mb=64")
        .env("TSAN_OPTIONS", format!("halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:suppressions={}", std::env::var("VCHK_TSAN_SUPP").unwrap_or_default()));
    let limit = bin.is_empty();
    unsafe {
        cmd.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if limit {
                // the soft limit only: what AddressSanitizer is built into (the probes) has to raise it
                let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::getrlimit(libc::RLIMIT_AS, &mut r);
                r.rlim_cur = r.rlim_max.min(10 << 30);
                libc::setrlimit(libc::RLIMIT_AS, &r);
            }
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("worker starts");
    let so = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut r = BufReader::new(so);
        loop {
            let mut l = String::new();
            match r.read_line(&mut l) {
                Ok(n) if n > 0 && l.ends_with('\n') => {
                    if tx.send(Some(l)).is_err() {
                        return;
                    }
                }
                _ => {
                    let _ = tx.send(None);
                    return;
                }
            }
        }
    });
    let mut se = child.stderr.take().unwrap();
    let err = Arc::new(Mutex::new(Vec::new()));
    let e2 = Arc::clone(&err);
    let reader = std::thread::spawn(move || {
        let mut b = [0u8; 8192];
        while let Ok(n) = se.read(&mut b) {
            if n == 0 {
                break;
            }
            let mut v = e2.lock().unwrap();
            v.extend_from_slice(&b[..n]);
            if v.len() > ERR_MAX {
                let k = v.len() - ERR_MAX / 2;
                v.drain(..k);
            }
        }
    });
    W {
        child,
        rx,
        err,
        reader: Some(reader),
    }
}

/// (all threads asleep, total cpu ticks)
fn activity(pid: u32) -> Option<(bool, u64)> {
    let mut asleep = true;
    let mut ticks = 0;
    for e in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let e = e.ok()?;
        let s = match std::fs::read_to_string(e.path().join("stat")) {
            Ok(s) => s,
            Err(_) => {
                asleep = false;
                continue;
            }
        };
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split_whitespace().collect();
        if f[0] != "S" {
            asleep = false;
        }
        ticks += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    }
    // threads that ended are counted in the process total
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let total = f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    Some((asleep, total.max(ticks)))
}

fn excerpt(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = 0;
    // sanitizer reports start with ====
    if let Some(k) = s.find("==================") {
        i = k;
    } else if let Some(k) = s.find("ERROR: AddressSanitizer") {
        i = k;
    } else if let Some(k) = s.find("panicked at") {
        i = s[..k].rfind('\n').unwrap_or(0);
    } else if s.len() > n {
        i = s.len() - n;
    }
    while !s.is_char_boundary(i) {
        i += 1;
    }
    s[i..].chars().take(n).collect()
}

enum Out {
    Done(Answer),
    /// the worker is gone
    Dead(String),
    Hang(String),
    Late,
}

const DEAD_S: u64 = 16;

fn watch(w: &mut W, cpu_s: u64, hard_end: Instant) -> Out {
    let tck = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
    let t0 = activity(w.child.id()).map(|x| x.1).unwrap_or(0);
    let mut still_since: Option<(Instant, u64, u32)> = None;
    loop {
        match w.rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Some(l)) => {
                return match serde_json::from_str(&l) {
                    Ok(a) => Out::Done(a),
                    Err(e) => Out::Dead(format!("unreadable answer {e}")),
                }
            }
            Ok(None) | Err(mpsc::RecvTimeoutError::Disconnected) => {
                let st = w.child.wait();
                return Out::Dead(format!("worker ended: {st:?}"));
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
        }
        if let Some((asleep, ticks)) = activity(w.child.id()) {
            if asleep {
                match &mut still_since {
                    Some((t, tk, n)) if *tk == ticks => {
                        *n += 1;
                        if t.elapsed().as_secs() >= DEAD_S && *n > 40 {
                            return Out::Hang(format!("deadlock: all threads asleep without any progress for {DEAD_S} s"));
                        }
                    }
                    _ => still_since = Some((Instant::now(), ticks, 0)),
                }
            } else {
                still_since = None;
            }
            if ticks.saturating_sub(t0) / tck > cpu_s {
                return Out::Hang(format!("no end after {cpu_s} s of processor time"));
            }
        }
        if Instant::now() > hard_end {
            return Out::Late;
        }
    }
}

struct Shared {
    next: usize,
    answers: u64,
    events: u64,
    keys: HashSet<u64>,
    inter: HashSet<u64>,
    samples: Vec<String>,
    counts: BTreeMap<String, u64>,
    by_kind: BTreeMap<String, u64>,
    ms_by_kind: BTreeMap<String, u64>,
    viol: Vec<(Case, String)>,
    inc: u64,
    inc_msgs: Vec<String>,
    skipped: u64,
}

pub struct Plan {
    pub cases: Vec<Case>,
    pub workers: usize,
    pub cpu_s: u64,
    pub rule: String,
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VCHK_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn load_known(prop: &str) -> Vec<(String, String)> {
    // lines: "known: property=<id> kind=<case kind or *> match=<substring of the message> :: <text>"
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                if !r.starts_with(&format!("property={prop} ")) {
                    continue;
                }
                if let (Some(a), Some(b)) = (r.find("match="), r.find(" :: ")) {
                    v.push((r[a + 6..b].to_string(), r[b + 4..].to_string()));
                }
            }
        }
    }
    v
}

pub fn check(prop: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let secs: u64 = std::env::var("VCHK_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 1500 } else { 300 });
    let scale: f64 = std::env::var("VCHK_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VCHK_KIND").ok();
    let ps = props::plan(prop, thorough);
    let mut cases = Vec::new();
    // kinds interleaved, in proportion of their counts
    let mut ent: Vec<(f64, Case)> = Vec::new();
    for (ki, (kind, count, bin)) in ps.kinds.iter().enumerate() {
        if let Some(o) = &only {
            if o != kind {
                continue;
            }
        }
        let mult = if thorough { 40. } else { 1. };
        let cnt = if *count == 1 { 1 } else { ((*count as f64) * mult * scale).ceil() as u64 };
        for i in 0..cnt {
            ent.push((
                (i as f64 + 0.5) / cnt as f64 + ki as f64 * 1e-9,
                Case {
                    prop: prop.to_string(),
                    kind: kind.to_string(),
                    seed: hash_words(&[seed, fnv(prop.as_bytes()), fnv(kind.as_bytes()), i]),
                    idx: i,
                    bin: bin.to_string(),
                    thorough,
                },
            ));
        }
    }
    ent.sort_by(|a, b| a.0.total_cmp(&b.0));
    cases.extend(ent.into_iter().map(|e| e.1));
    let plan = Plan {
        cases,
        workers: std::env::var("VCHK_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(ps.workers),
        cpu_s: ps.cpu_s,
        rule: ps.rule,
    };
    let scratch = PathBuf::from(format!("/tmp/vchk-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let deadline = t0 + Duration::from_secs(secs);
    let hard = deadline + Duration::from_secs(420);
    let sh = run_plan(&plan, &scratch, deadline, hard, seed);
    let known = load_known(prop);
    let mut code = if sh.answers == 0 { 3 } else { 0 };
    let edir = verif_dir().join("evidence");
    let rdir = edir.join("replay");
    let _ = std::fs::create_dir_all(&rdir);
    let mut nviol = 0;
    let mut printed_known = HashSet::new();
    for (c, m) in &sh.viol {
        if let Some((_, txt)) = known.iter().find(|(k, _)| m.contains(k.as_str())) {
            if printed_known.insert(txt.clone()) {
                println!("KNOWN-FINDING: property={prop} {txt}");
            }
            continue;
        }
        nviol += 1;
        let p = rdir.join(format!("{}-{}-{:016x}.json", prop, c.kind, c.seed));
        let v = serde_json::json!({"case": c, "message": m});
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
        println!("VIOLATION property={} replay={}", prop, p.display());
        println!("  case {} seed {} : {}", c.kind, c.seed, m.chars().take(1500).collect::<String>().replace('\n', "\n  | "));
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut samples: Vec<String> = sh.samples.clone();
    samples.truncate(12);
    if samples.is_empty() {
        samples.push("none".into());
    }
    let ev = serde_json::json!({
        "property": prop,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": ps.level,
        "coverage": {
            "evaluations": sh.answers,
            "distinct_nontrivial": sh.keys.len(),
            "rule": plan.rule,
            "samples": samples,
            "events_judged": sh.events,
            "distinct_interleavings": sh.inter.len(),
            "cases_by_kind": sh.by_kind,
            "ms_by_kind": sh.ms_by_kind,
            "counters": sh.counts,
            "skipped_for_time": sh.skipped,
            "inconclusive": sh.inc,
            "inconclusive_messages": sh.inc_msgs,
        },
        "assumptions": ps.assumptions,
        "wall_s": wall,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    let _ = std::fs::remove_dir_all(&scratch);
    println!(
        "{prop}: {} cases, {} distinct non trivial, {} observations judged, {} interleavings, {} inconclusive, {} skipped, {} violations, {:.1} s",
        sh.answers, sh.keys.len(), sh.events, sh.inter.len(), sh.inc, sh.skipped, nviol, wall
    );
    code
}

fn run_plan(plan: &Plan, scratch: &Path, deadline: Instant, hard: Instant, _seed: u64) -> Shared {
    let sh = Arc::new(Mutex::new(Shared {
        next: 0,
        answers: 0,
        events: 0,
        keys: HashSet::new(),
        inter: HashSet::new(),
        samples: vec![],
        counts: BTreeMap::new(),
        by_kind: BTreeMap::new(),
        ms_by_kind: BTreeMap::new(),
        viol: vec![],
        inc: 0,
        inc_msgs: vec![],
        skipped: 0,
    }));
    std::thread::scope(|s| {
        for wn in 0..plan.workers {
            let sh = Arc::clone(&sh);
            s.spawn(move || {
                let mut w: Option<(String, W)> = None;
                let mut gen = 0;
                let mut served = 0;
                loop {
                    let c = {
                        let mut g = sh.lock().unwrap();
                        if g.next >= plan.cases.len() {
                            break;
                        }
                        // a handful of violations is enough
                        if Instant::now() > deadline || g.viol.len() >= 3 {
                            g.skipped += (plan.cases.len() - g.next) as u64;
                            g.next = plan.cases.len();
                            break;
                        }
                        let c = plan.cases[g.next].clone();
                        g.next += 1;
                        c
                    };
                    if bin_path(&c.bin).is_none() {
                        let mut g = sh.lock().unwrap();
                        g.inc += 1;
                        continue;
                    }
                    // objects given through the C interface are never freed: a worker does not live long
                    served += 1;
                    if served % 50 == 0 || w.as_ref().map_or(true, |(b, _)| *b != c.bin) {
                        if let Some((_, mut old)) = w.take() {
                            let _ = old.child.kill();
                            let _ = old.child.wait();
                        }
                        gen += 1;
                        w = Some((c.bin.clone(), spawn(&c.bin, scratch, wn * 1000 + gen)));
                    }
                    let wk = &mut w.as_mut().unwrap().1;
                    let mut line = serde_json::to_string(&c).unwrap();
                    line.push('\n');
                    let sent = wk.child.stdin.as_mut().unwrap().write_all(line.as_bytes());
                    let o = if sent.is_err() {
                        Out::Dead(format!("worker ended before the case: {:?}", wk.child.wait()))
                    } else {
                        watch(wk, plan.cpu_s, hard)
                    };
                    let mut g = sh.lock().unwrap();
                    match o {
                        Out::Done(a) => {
                            g.answers += 1;
                            g.events += a.events;
                            *g.by_kind.entry(c.kind.clone()).or_insert(0) += 1;
                            *g.ms_by_kind.entry(c.kind.clone()).or_insert(0) += a.ms;
                            g.keys.extend(a.keys);
                            g.inter.extend(a.inter);
                            for (k, v) in a.counts {
                                *g.counts.entry(k).or_insert(0) += v;
                            }
                            if g.samples.len() < 12 {
                                let k = g.samples.iter().filter(|s| s.starts_with(&format!("[{}]", c.kind))).count();
                                if k < 3 {
                                    for s in a.samples.into_iter().take(1) {
                                        g.samples.push(format!("[{}] {}", c.kind, s));
                                    }
                                }
                            }
                            match a.res.as_str() {
                                "ok" => {}
                                "inc" => {
                                    g.inc += 1;
                                    if g.inc_msgs.len() < 5 {
                                        g.inc_msgs.push(a.msg);
                                    }
                                }
                                _ => {
                                    let msg = if a.msg.starts_with("panic") {
                                        format!("{}\n{}", a.msg, wk.tail(3000, false))
                                    } else {
                                        a.msg
                                    };
                                    g.viol.push((c, msg));
                                    // locks of the library may be poisoned, start again
                                    drop(g);
                                    if let Some((_, mut old)) = w.take() {
                                        let _ = old.child.kill();
                                        let _ = old.child.wait();
                                    }
                                }
                            }
                        }
                        Out::Dead(m) => {
                            g.answers += 1;
                            let msg = format!("{m}\n{}", wk.tail(6000, true));
                            g.viol.push((c, msg));
                            drop(g);
                            w = None;
                        }
                        Out::Hang(m) => {
                            g.answers += 1;
                            let msg = format!("{m}\n{}", wk.tail(2000, false));
                            g.viol.push((c, msg));
                            drop(g);
                            let _ = wk.child.kill();
                            let _ = wk.child.wait();
                            w = None;
                        }
                        Out::Late => {
                            g.inc += 1;
                            g.inc_msgs.push("case stopped at the end of the time allowed".into());
                            drop(g);
                            let _ = wk.child.kill();
                            let _ = wk.child.wait();
                            w = None;
                        }
                    }
                }
                if let Some((_, mut old)) = w.take() {
                    drop(old.child.stdin.take());
                    let _ = old.child.kill();
                    let _ = old.child.wait();
                }
            });
        }
    });
    Arc::try_unwrap(sh).ok().unwrap().into_inner().unwrap()
}

pub fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&s).expect("json");
    let c: Case = serde_json::from_value(v["case"].clone()).expect("case");
    let n = std::env::var("VCHK_REPEAT").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    let scratch = PathBuf::from(format!("/tmp/vchk-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let plan = Plan {
        cases: (0..n).map(|_| c.clone()).collect(),
        workers: 2,
        cpu_s: props::plan(&c.prop, false).cpu_s,
        rule: String::new(),
    };
    let end = Instant::now() + Duration::from_secs(600);
    let sh = run_plan(&plan, &scratch, end, end, 0);
    let _ = std::fs::remove_dir_all(&scratch);
    for (c, m) in &sh.viol {
        println!("VIOLATION property={} replay={}", c.prop, path);
        println!("  {m}");
    }
    println!("{} runs of the case, {} violations", sh.answers, sh.viol.len());
    i32::from(!sh.viol.is_empty())
}
