mod cfg;
mod core;
mod ctl;
mod ctx;
mod dumpfile;
mod mem;
mod oracle;
mod props;
mod pa;
mod pb;
mod pc;
mod pd;
mod pe;
mod pf;
mod pg;
mod ph;
mod pi;
mod probe;
mod rng;
mod spaces;
mod sup;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => sup::check(&a[2]),
        Some("worker") => {
            sup::worker(&a[2]);
            0
        }
        Some("replay") => sup::replay(&a[2]),
        // run one case in this process: prop kind seed [idx]
        Some("one") => {
            let c = sup::Case {
                prop: a[2].clone(),
                kind: a[3].clone(),
                seed: a[4].parse().unwrap(),
                idx: a.get(5).map_or(0, |s| s.parse().unwrap()),
                bin: String::new(),
                thorough: false,
            };
            let d = std::path::PathBuf::from(format!("/tmp/vchk-one-{}", std::process::id()));
            std::fs::create_dir_all(&d).unwrap();
            unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN) };
            let (r, cx) = sup::run_case(&c, &d);
            let _ = std::fs::remove_dir_all(&d);
            eprintln!("events {} counts {:?}", cx.events, cx.counts);
            match r {
                Ok(()) => 0,
                Err(oracle::Fail::Viol(m)) => {
                    eprintln!("VIOL {m}");
                    1
                }
                Err(oracle::Fail::Inc(m)) => {
                    eprintln!("INC {m}");
                    2
                }
            }
        }
        _ => {
            eprintln!("vchk check <ID> | replay <file> | one <prop> <kind> <seed>");
            2
        }
    };
    std::process::exit(code);
}
