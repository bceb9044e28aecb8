//! The same property on nodes of differently configured builds. Each build is an executable of its
//! own; every node runs its histories under its own schedule and is checked against the oracle of
//! the property. For C10 and C06 what the nodes observed is also compared across builds.
use crate::arg;
use crate::kernel;
use crate::plan;
use crate::runner::{self, Replay, Sum};
use std::process::Command;

const BUILDS: [(&str, &str); 6] = [
    ("rel", "std, arkworks 64-bit arithmetic, no debug assertions"),
    ("dbg", "std, arkworks 64-bit arithmetic, debug assertions and overflow checks, unoptimised"),
    ("lite", "no_std, no alloc, 32-bit arithmetic without arkworks"),
    ("mid", "std, 32-bit arithmetic without arkworks, debug assertions and overflow checks, unoptimised"),
    ("dflt", "poseidon377's default features (arkworks 64-bit arithmetic, no circuits; the other crates without std), no debug assertions"),
    ("lal", "no_std with alloc, 32-bit arithmetic without arkworks, debug assertions and overflow checks, unoptimised"),
];

/// The builds a property is checked with, and the share of the time each gets.
pub fn builds_of(prop: &str) -> &'static [(&'static str, f64)] {
    match prop {
        "C10" => &[("rel", 0.2), ("dbg", 0.18), ("lite", 0.16), ("mid", 0.16), ("dflt", 0.14), ("lal", 0.16)],
        "C06" => &[("rel", 0.65), ("dbg", 0.35)],
        "C05" | "C07" | "C08" => &[("rel", 0.75), ("dbg", 0.25)],
        "C01" | "C02" | "C03" | "C04" | "C09" => &[("rel", 0.7), ("dbg", 0.15), ("lite", 0.15)],
        _ => &[],
    }
}

fn exe(variant: &str) -> std::path::PathBuf {
    // .../target/<variant>/release/psim
    let me = std::env::current_exe().expect("own path");
    me.ancestors().nth(3).expect("target directory").join(variant).join("release/psim")
}

pub fn check(args: &[String]) -> i32 {
    let t0 = std::time::Instant::now();
    let prop = args[2].clone();
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let secs = arg(args, "--secs").map_or(if thorough { 1800.0 } else if prop == "C10" { 84.0 } else { 66.0 }, |s| s.parse().unwrap());
    let seed: u64 = arg(args, "--seed").map_or(1, |s| s.parse().unwrap());
    let verif = arg(args, "--verif").unwrap_or("/verif".into());
    let work = format!("{verif}/sim/target/work");
    std::fs::create_dir_all(&work).expect("work directory");
    let mut sums: Vec<(String, Sum)> = vec![];
    let mut absent = vec![];
    for (v, share) in builds_of(&prop) {
        if !exe(v).exists() {
            absent.push(v.to_string());
            continue;
        }
        let f = format!("{work}/{prop}-{v}-{}.json", std::process::id());
        let mut a: Vec<String> = vec!["check".into(), prop.clone(), "--variant".into(), v.to_string(), "--sum".into(), f.clone()];
        for (k, x) in [
            ("--tier", if thorough { "thorough".to_string() } else { "quick".into() }),
            ("--seed", seed.to_string()),
            ("--secs", (secs * share).to_string()),
            ("--verif", verif.clone()),
        ] {
            a.push(k.into());
            a.push(x);
        }
        let out = match Command::new(exe(v)).args(&a).output() {
            Ok(o) => o,
            Err(e) => {
                eprintln!("cannot run the {v} build: {e}");
                return 2;
            }
        };
        let s: Option<Sum> = std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let _ = std::fs::remove_file(&f);
        print!("[{v}] {}", String::from_utf8_lossy(&out.stdout));
        eprint!("{}", String::from_utf8_lossy(&out.stderr));
        if let Some(s) = s {
            sums.push((v.to_string(), s));
        }
        match out.status.code() {
            Some(0) => {}
            Some(1) => {
                evidence(&prop, &sums, 0, t0.elapsed().as_secs_f64(), seed, thorough, &verif, &absent, 1);
                // the line must stand alone
                for l in String::from_utf8_lossy(&out.stdout).lines().filter(|l| l.starts_with("VIOLATION ")) {
                    println!("{l}");
                }
                return 1;
            }
            c => {
                eprintln!("the {v} build ended with {c:?}");
                return 2;
            }
        }
    }
    let mut compared = 0;
    let mut bad: Option<(u64, String)> = None;
    for (i, d) in &sums[0].1.digests {
        for (v, s) in &sums[1..] {
            if let Some(e) = s.digests.get(i) {
                compared += 1;
                if e != d && bad.as_ref().map_or(true, |b| *i < b.0) {
                    bad = Some((*i, v.clone()));
                }
            }
        }
    }
    evidence(&prop, &sums, compared, t0.elapsed().as_secs_f64(), seed, thorough, &verif, &absent, bad.is_some() as u64);
    if matches!(prop.as_str(), "C06" | "C10") {
        println!("{compared} results of the same history compared across builds");
    }
    if let Some((i, v)) = bad {
        match report(&prop, seed, i, &v, thorough, &verif) {
            Ok(p) => {
                println!("VIOLATION property={prop} replay={p}");
                return 1;
            }
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        }
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, sums: &[(String, Sum)], compared: u64, wall: f64, seed: u64, thorough: bool, verif: &str, absent: &[String], viol: u64) {
    let mut total = Sum::default();
    let mut per = serde_json::Map::new();
    let mut elapsed = 0.0;
    for (v, s) in sums {
        elapsed += s.elapsed_s;
        per.insert(v.clone(), serde_json::json!({"runs": s.runs, "operations": s.ops, "elapsed_s": s.elapsed_s,
            "branches_visited": s.covered, "what": BUILDS.iter().find(|b| b.0 == v).unwrap().1}));
        let mut s = s.clone();
        s.digests.clear();
        runner::merge(&mut total, s);
    }
    total.elapsed_s = elapsed;
    total.traces.sort();
    total.traces.dedup();
    let cfg = runner::Cfg {
        prop: prop.into(), seed, thorough, secs: 0.0, workers: 0, max_runs: 0, verif: verif.into(),
        variant: "all".into(), keep_digests: false,
    };
    let x = serde_json::json!({"builds": per, "results_compared_across_builds": compared, "builds_that_did_not_compile": absent});
    if let Err(e) = crate::evidence::write(&cfg, &total, wall, viol, x) {
        eprintln!("cannot write the evidence file: {e}");
    }
}

/// Prints what a plan observed in this build.
pub fn digest(path: &str) -> i32 {
    let txt = std::fs::read_to_string(path).expect("plan file");
    let r: Replay = serde_json::from_str(&txt).expect("plan file format");
    kernel::cover_new();
    let m = kernel::shm_new();
    let o = runner::run_plan(&r.plan, Some(&r.events), m);
    let d = if r.property == "C06" { o.golden } else { o.digest };
    println!("{d:016x} {}", o.violation.unwrap_or_default());
    0
}

fn digests(prop: &str, path: &str) -> Result<Vec<String>, String> {
    builds_of(prop)
        .iter()
        .filter(|(v, _)| exe(v).exists())
        .map(|(v, _)| {
            let o = Command::new(exe(v)).arg("digest").arg(path).output().map_err(|e| format!("cannot run the {v} build: {e}"))?;
            Ok(String::from_utf8_lossy(&o.stdout).trim().to_string())
        })
        .collect()
}

fn differ(prop: &str, path: &str) -> Result<Option<String>, String> {
    let d = digests(prop, path)?;
    if d.iter().all(|x| *x == d[0]) {
        Ok(None)
    } else {
        Ok(Some(builds_of(prop).iter().filter(|(v, _)| exe(v).exists()).zip(&d).map(|((v, _), d)| format!("{v}: {d}")).collect::<Vec<_>>().join("; ")))
    }
}

pub fn replay(r: &Replay, path: &str) -> i32 {
    match differ(&r.property, path) {
        Ok(Some(m)) => {
            println!("builds-differ: {m}");
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        Ok(None) => {
            println!("not reproduced: all builds agree");
            0
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

fn report(prop: &str, seed: u64, i: u64, v: &str, thorough: bool, verif: &str) -> Result<String, String> {
    let run = runner::run_seed(prop, seed, i);
    let mut r = Replay {
        property: prop.into(),
        seed,
        run: i,
        variant: "all".into(),
        violation: format!("builds-differ: the {v} build observed something else than the rel build"),
        minimised: String::new(),
        attempts: 0,
        events: vec![],
        plan: plan::gen(prop, run, i, thorough),
    };
    let dir = format!("{verif}/replays");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = format!("{dir}/{prop}-{seed}-{i}-all.json");
    let save = |r: &Replay| std::fs::write(&path, serde_json::to_string_pretty(r).unwrap()).map_err(|e| e.to_string());
    save(&r)?;
    if differ(prop, &path)?.is_none() {
        return Err("harness: the difference between builds did not repeat".into());
    }
    let before = r.plan.all().len();
    let t0 = std::time::Instant::now();
    for t in (0..r.plan.threads.len()).rev() {
        let mut k = r.plan.threads[t].len();
        while k > 0 && t0.elapsed().as_secs() < 90 {
            k -= 1;
            let o = r.plan.threads[t].remove(k);
            save(&r)?;
            if differ(prop, &path)?.is_none() {
                r.plan.threads[t].insert(k, o);
            }
        }
    }
    r.minimised = format!("{} operations of {before}, no events", r.plan.all().len());
    save(&r)?;
    println!("builds-differ: {}", differ(prop, &path)?.unwrap_or_default());
    Ok(path)
}
