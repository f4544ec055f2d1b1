//! C20, what safe code can be made to do: small programs of safe Rust, each with an order of operations that must not
//! compile. The control (without that order) must compile and run clean under AddressSanitizer, else nothing is
//! judged. If the other compiles, it is run, and what AddressSanitizer sees decides.

use crate::ctx::Ctx;
use crate::oracle::R;
use crate::{inc, viol};
use std::path::{Path, PathBuf};
use std::os::unix::process::CommandExt;
use std::process::Command;
use std::time::{Duration, Instant};

const COMMON: &str = include_str!("probes/common.rs");
const PROBES: &[(&str, &str)] = &[
    ("reloader_dropped", include_str!("probes/reloader_dropped.rs")),
    ("reloader_local", include_str!("probes/reloader_local.rs")),
    ("map_slice", include_str!("probes/map_slice.rs")),
    ("reloaded_twice", include_str!("probes/reloaded_twice.rs")),
    ("point_held", include_str!("probes/point_held.rs")),
    ("with_dist", include_str!("probes/with_dist.rs")),
    ("metric_rc", include_str!("probes/metric_rc.rs")),
    ("element_rc", include_str!("probes/element_rc.rs")),
    ("layer_iterator", include_str!("probes/layer_iterator.rs")),
    ("all_iterator", include_str!("probes/all_iterator.rs")),
    ("vector_of_point", include_str!("probes/vector_of_point.rs")),
    ("iterator_mapped", include_str!("probes/iterator_mapped.rs")),
];

pub fn number() -> u64 {
    PROBES.len() as u64
}

fn libraries(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = e.path();
        match e.file_type() {
            Ok(t) if t.is_dir() => {
                if !["incremental", "fingerprint", ".fingerprint"].iter().any(|x| p.ends_with(x)) {
                    libraries(&p, out)
                }
            }
            _ => {
                if matches!(p.extension().and_then(|x| x.to_str()), Some("rlib" | "rmeta" | "so")) {
                    out.push(p)
                }
            }
        }
    }
}

/// None if it does not end in time
fn run(c: &mut Command, log: &Path, secs: u64) -> Option<(std::process::ExitStatus, String)> {
    let f = std::fs::File::create(log).ok()?;
    let g = f.try_clone().ok()?;
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_AS, &mut r);
            r.rlim_cur = r.rlim_max;
            libc::setrlimit(libc::RLIMIT_AS, &r);
            Ok(())
        });
    }
    let mut ch = c.stdin(std::process::Stdio::null()).stdout(f).stderr(g).spawn().ok()?;
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            let b = std::fs::read(log).ok()?;
            return Some((s, String::from_utf8_lossy(&b).into_owned()));
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn probe(idx: u64, cx: &mut Ctx) -> R<()> {
    let (name, text) = PROBES[(idx % number()) as usize];
    let Ok(asan) = std::env::var("VCHK_ASAN") else { inc!("VCHK_ASAN is not set") };
    let triple = "x86_64-unknown-linux-gnu";
    // TARGET/triple/release/vchk
    let Some(target) = Path::new(&asan).ancestors().nth(3) else { inc!("{asan}") };
    let mut libs = vec![];
    libraries(&target.join(triple).join("release"), &mut libs);
    libraries(&target.join("release"), &mut libs);
    libs.sort();
    let own: Vec<&PathBuf> = libs
        .iter()
        .filter(|p| p.file_name().is_some_and(|f| f.to_string_lossy().starts_with("libhnsw_rs")))
        .collect();
    if own.is_empty() {
        inc!("no library of the crate below {}", target.display())
    }
    let mut dirs: Vec<&Path> = libs.iter().filter_map(|p| p.parent()).collect();
    dirs.dedup();
    let dir = cx.fresh();
    let src = dir.join("probe.rs");
    if std::fs::write(&src, format!("{COMMON}{text}")).is_err() {
        inc!("no source of the probe")
    }
    let compile = |cfg: &str| -> Option<(bool, String)> {
        let mut c = Command::new("rustc");
        c.env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu").env_remove("RUSTFLAGS");
        c.args(["--edition", "2024", "-O", "--cfg", cfg, "-Zsanitizer=address", "--target", triple]);
        for d in &dirs {
            c.arg("-L").arg(format!("dependency={}", d.display()));
        }
        for o in &own {
            c.arg("--extern").arg(format!("hnsw_rs={}", o.display()));
        }
        c.arg(&src).arg("-o").arg(dir.join(cfg));
        run(&mut c, &dir.join("log"), 200).map(|(s, t)| (s.success(), t))
    };
    let execute = |cfg: &str| {
        let d = dir.join(format!("{cfg}.d"));
        let _ = std::fs::create_dir_all(&d);
        let mut c = Command::new(dir.join(cfg));
        c.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:allocator_may_return_null=1").env("RUST_BACKTRACE", "0");
        run(c.current_dir(&d), &dir.join("log"), 120)
    };
    // the control
    match compile("control") {
        None => inc!("probe {name}: rustc does not answer"),
        Some((false, t)) => {
            inc!("probe {name}: the control does not compile: {}", t.lines().take(3).collect::<Vec<_>>().join(" "))
        }
        _ => {}
    }
    match execute("control") {
        None => inc!("probe {name}: the control does not end"),
        Some((s, t)) if !s.success() => {
            if t.contains("ERROR: AddressSanitizer: ") {
                viol!(
                    "safe code ({name}, the control) makes AddressSanitizer stop: {}",
                    t.lines().filter(|l| l.contains("ERROR")).take(1).collect::<String>()
                )
            }
            inc!("probe {name}: the control fails: {}", t.lines().take(3).collect::<Vec<_>>().join(" "))
        }
        _ => cx.count("probe_controls_run", 1),
    }
    match compile("wrong") {
        None => inc!("probe {name}: rustc does not answer"),
        Some((false, t)) => {
            cx.count("probe_programs_refused_by_the_compiler", 1);
            cx.key(0x9a0be ^ idx);
            cx.sample(format!(
                "{name}: refused, {}",
                t.lines().find(|l| l.starts_with("error")).unwrap_or("")
            ));
        }
        Some((true, _)) => match execute("wrong") {
            None => inc!("probe {name}: it compiles and does not end"),
            Some((s, _)) if s.success() => {
                cx.count("probe_programs_compiled_and_clean", 1);
                cx.key(0x9a0be ^ idx);
                cx.sample(format!("{name}: compiles and runs clean"));
            }
            Some((s, t)) if t.contains("AddressSanitizer failed to") => {
                inc!("probe {name}: AddressSanitizer does not work here: {s}, {}", t.lines().take(2).collect::<String>())
            }
            Some((s, t)) => {
                let what: String = t
                    .lines()
                    .filter(|l| l.contains("ERROR") || l.contains("panicked") || l.contains("assertion"))
                    .take(2)
                    .collect::<Vec<_>>()
                    .join(" ");
                viol!("safe code (probe {name}) compiles and reads memory it must not: {s}, {what}")
            }
        },
    }
    Ok(())
}
