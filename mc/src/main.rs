mod supervise;
mod engine;
mod glue;
mod props;
mod refmodel;
mod report;
mod sys;

use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let usage = || -> ! {
        eprintln!("usage: mc check <ID> [driver substring] | mc replay <file>");
        std::process::exit(2)
    };
    if args.len() < 3 {
        usage();
    }
    let (id, tier, replay) = match args[1].as_str() {
        "check" => (args[2].clone(), tier, None),
        "replay" => match report::read_replay(&args[2]) {
            Some((p, t, d, c)) => (p, t, Some((d, c))),
            None => {
                eprintln!("cannot read replay file");
                std::process::exit(2)
            }
        },
        _ => usage(),
    };
    let inner = std::env::var("RNMC_SCRATCH").ok();
    let root = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let scratch = std::path::PathBuf::from(inner.clone().unwrap_or_else(|| format!("{}/rnmc-{}-{}", root, id, std::process::id())));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let thorough = tier == "thorough";
    let _ = report::G.set(report::Globals { property: id.clone(), tier: tier.clone(), seed, verif: verif.clone(), scratch: scratch.clone() });
    if inner.is_none() {
        supervise::run(&args, thorough);
    }
    supervise::child(&scratch);
    engine::install_panic_hook();
    let (drivers, assumptions) = match props::drivers(&id, thorough) {
        Some(d) => d,
        None => {
            eprintln!("no such property: {}", id);
            std::process::exit(2)
        }
    };

    if let Some((dn, choices)) = replay {
        let d = match drivers.iter().find(|d| d.name == dn) {
            Some(d) => d,
            None => {
                eprintln!("no driver {}", dn);
                std::process::exit(2)
            }
        };
        let sc = scratch.join("replay");
        std::fs::create_dir_all(&sc).expect("scratch");
        let (o, trace, _) = engine::run_recorded(d, &choices, Some(sc));
        for t in &trace {
            println!("  {}", t);
        }
        report::cleanup();
        match o {
            engine::Outcome::Ok => println!("replay: property holds on this execution"),
            engine::Outcome::Violation(m) => {
                println!("{}\nVIOLATION property={} replay={}", m, id, args[2]);
                std::process::exit(1)
            }
            engine::Outcome::HarnessError(m) => {
                println!("replay error: {}", m);
                std::process::exit(2)
            }
        }
        return;
    }

    let start = Instant::now();
    let cap = Duration::from_secs(if thorough { 3600 } else { 600 });
    let mut rs = vec![];
    let mut violation = None;
    let mut error = None;
    let filter = args.get(3).cloned().unwrap_or_default();
    for (index, d) in drivers.iter().enumerate() {
        if !d.name.contains(&filter) {
            continue;
        }
        let mut r = engine::explore(d, index, &scratch, cap);
        println!(
            "{} / {}: {} executions, {} library calls, {} distinct states, {} distinct outcomes, depth {}, {:.2} s{}",
            id, d.name, r.executions, r.transitions, r.states, r.distinct_outcomes, r.max_depth, r.wall,
            r.counters.iter().map(|(k, v)| format!(", {} {}", v, k)).collect::<String>()
        );
        violation = r.violation.take();
        if violation.is_none() {
            error = r.error.clone();
        }
        rs.push((d.name.clone(), d.bounds.clone(), r));
        if violation.is_some() || error.is_some() {
            break;
        }
    }
    let a: Vec<String> = assumptions.iter().map(|s| s.to_string()).collect();
    report::write_evidence(&rs, start.elapsed().as_secs_f64(), &a, violation.is_some() as usize, &verif);
    if let Some(v) = violation {
        report::violation_and_exit(&v);
    }
    report::cleanup();
    if let Some(e) = error {
        println!("ERROR {}: {}", id, e);
        std::process::exit(2);
    }
    println!("{}: held on every execution explored ({:.1} s)", id, start.elapsed().as_secs_f64());
}
