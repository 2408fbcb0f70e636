mod faultio;
mod gen;
mod glue;
mod props;
mod refwii;
mod rng;
mod runner;
mod scen;

use runner::*;
use std::path::PathBuf;

#[global_allocator]
static A: Watch = Watch;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    install_panic_hook();
    let code = match cmd.as_str() {
        "run" | "one" => {
            let id = args[2].clone();
            let p = props::ALL.iter().find(|p| p.id == id).expect("known property");
            let o = Opts {
                seed: arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: arg(&args, "--tier").as_deref() == Some("thorough"),
                scratch: PathBuf::from(arg(&args, "--scratch").unwrap_or_else(|| "/dev/shm/mon".into())),
                threads: arg(&args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                cases: arg(&args, "--cases").and_then(|s| s.parse().ok()),
                budget_s: arg(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(300),
                hang_s: arg(&args, "--hang").and_then(|s| s.parse().ok()).unwrap_or(120),
                skip: Default::default(),
            };
            std::fs::create_dir_all(&o.scratch).unwrap();
            if cmd == "run" {
                run(p, &o)
            } else {
                let idx: u64 = arg(&args, "--case").and_then(|s| s.parse().ok()).expect("--case N");
                let scratch = o.scratch.clone();
                // same stack size as a worker
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        let mut st = Stats::default();
                        match run_one(p, o.seed, idx, &mut st, &scratch, o.thorough) {
                            Outcome::Held => {
                                println!("case {idx}: held; {:?} {:?}", st.counts, st.samples);
                                0
                            }
                            Outcome::Violated(m) => {
                                println!("case {idx}: VIOLATED: {m}");
                                1
                            }
                            Outcome::HarnessError(m) => {
                                println!("case {idx}: harness error: {m}");
                                2
                            }
                        }
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            }
        }
        "gen" => props::pygen::main(&args),
        // what C15 runs as another process
        "build" => {
            let mut f = std::fs::OpenOptions::new()
                .create(true)
                .truncate(true)
                .read(true)
                .write(true)
                .open(&args[3])
                .unwrap();
            match disc_riider::builder::build_from_directory(std::path::Path::new(&args[2]), &mut f, &mut |_| ()) {
                Ok(()) => 0,
                Err(e) => {
                    eprintln!("{e:?}");
                    1
                }
            }
        }
        "list" => {
            for p in props::ALL {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: mon run|one ID --seed N --tier quick|thorough");
            2
        }
    };
    std::process::exit(code);
}
