mod builds;
mod evidence;
mod kernel;
mod ops;
mod plan;
#[cfg(feature = "full")]
mod r1cs;
mod reference;
mod rng;
mod runner;

#[global_allocator]
static HEAP: kernel::Heap = kernel::Heap;

pub fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    same_addresses();
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => runner::replay(&args[2]),
        Some("check") if !builds::builds_of(&args[2]).is_empty() && arg(&args, "--variant").is_none() => builds::check(&args),
        Some("check") => check(&args),
        Some("digest") => builds::digest(&args[2]),
        Some("plan") => {
            // the plan of one run: psim plan <property> <seed> <run>
            let (s, i): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&plan::gen(&args[2], runner::run_seed(&args[2], s, i), i, false)).unwrap());
            0
        }
        _ => {
            eprintln!("usage: psim check <property> [--tier quick|thorough] [--seed N] [--secs S] | psim replay <file>");
            2
        }
    };
    std::process::exit(code);
}

/// Starts over without address space randomisation where that is allowed: code whose behaviour
/// depends on addresses then behaves the same in every process.
fn same_addresses() {
    use std::os::unix::process::CommandExt;
    unsafe {
        let now = libc::personality(0xffff_ffff);
        if now < 0 || now & libc::ADDR_NO_RANDOMIZE != 0 || std::env::var_os("PSIM_FIXED").is_some() {
            return;
        }
        if libc::personality((now | libc::ADDR_NO_RANDOMIZE) as _) < 0 {
            return;
        }
    }
    if let Ok(exe) = std::env::current_exe() {
        // only comes back if it fails
        let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("PSIM_FIXED", "1").exec();
    }
}

fn check(args: &[String]) -> i32 {
    let t0 = std::time::Instant::now();
    let prop = args[2].clone();
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let secs = arg(args, "--secs").map_or(if thorough { 1800.0 } else { 60.0 }, |s| s.parse().unwrap());
    let cfg = runner::Cfg {
        prop: prop.clone(),
        seed: arg(args, "--seed").map_or(1, |s| s.parse().unwrap()),
        thorough,
        secs,
        workers: arg(args, "--workers").map_or(8, |s| s.parse().unwrap()),
        max_runs: arg(args, "--runs").map_or(u64::MAX, |s| s.parse().unwrap()),
        verif: arg(args, "--verif").unwrap_or("/verif".into()),
        variant: arg(args, "--variant").unwrap_or("rel".into()),
        keep_digests: arg(args, "--sum").is_some(),
    };
    let s = runner::explore(&cfg);
    println!("{} runs, {} distinct, fired {:?}, covered {}/{}, points {}, switches {}, multi {}, inflight {}, shared {}, allocs {} panics {} in {:.1}s",
        s.runs, s.traces.len(), s.fired, s.covered, s.guards, s.points, s.switches, s.multi, s.max_inflight, s.shared_hits, s.allocs, s.panics, t0.elapsed().as_secs_f64());
    if let Some(f) = arg(args, "--sum") {
        std::fs::write(f, serde_json::to_vec(&s).unwrap()).expect("summary");
    }
    let ev = |n: u64| {
        if cfg.keep_digests {
            return;
        }
        if let Err(e) = evidence::write(&cfg, &s, t0.elapsed().as_secs_f64(), n, serde_json::json!({})) {
            eprintln!("cannot write the evidence file: {e}");
        }
    };
    for w in &s.warnings {
        eprintln!("warning: {w}");
    }
    if let (Some(h), None) = (&s.harness, &s.viol) {
        eprintln!("{h}");
        ev(0);
        return 2;
    }
    if let Some((i, seed, msg)) = &s.viol {
        ev(1);
        println!("run {i} (seed {seed}): {msg}");
        match runner::report(&cfg, *i, *seed, msg) {
            Ok(path) => {
                println!("VIOLATION property={prop} replay={path}");
                return 1;
            }
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        }
    }
    ev(0);
    0
}
