mod faults;
mod refabi;
mod vm;
mod gens;
mod pbt;
mod refcodec;
mod runner;
mod suites;
mod tpl;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let properties = suites::all();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| {
        properties.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2)
        })
    };
    match arg(0) {
        "run" => {
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            std::process::exit(runner::run(find(arg(1)), arg(2), seed));
        }
        "worker" => {
            let n = |i: usize| arg(i).parse::<u64>().expect("number");
            runner::worker(
                find(arg(1)),
                runner::WorkerArgs {
                    suite: arg(2).to_string(),
                    tier: arg(3).to_string(),
                    seed: n(4),
                    start: n(5),
                    count: n(6),
                    cpu: n(7) as usize,
                    dir: PathBuf::from(arg(8)),
                    out: PathBuf::from(arg(9)),
                },
            );
        }
        "replay" => {
            let verbose = arg(2) == "-v";
            std::process::exit(runner::replay(&properties, &PathBuf::from(arg(1)), verbose));
        }
        "prepare" => {
            // what the quick checks compile besides the harness
            for p in &properties {
                suites::prepare(p.id, 1, false);
            }
        }
        "list" => {
            for p in &properties {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: svm-verif run ID quick|thorough | replay FILE [-v] | list");
            std::process::exit(2);
        }
    }
}
