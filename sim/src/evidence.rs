//! The evidence file of a check: everything in it is measured on this run.
use crate::kernel::{ACT_NAMES, NACT};
use crate::runner::{Cfg, Sum};
use serde_json::{json, Map, Value};

/// Names of the probe counters (kernel::probe) of each property.
pub fn probes(prop: &str) -> &'static [&'static str] {
    match prop {
        "C05" | "C06" | "C07" => &[
            "constraint_systems_begun",
            "in_setup_mode",
            "finished",
            "abandoned",
            "in_circuit_hashes",
            "matrices_compared",
            "honest_assignments_evaluated",
            "tampered_assignments_evaluated",
            "tampered_with_repair",
            "repair_steps",
            "tampered_assignments_satisfied",
            "hash_spans_compared",
            "constraints_evaluated_thousands",
            "gadget_panics_as_documented",
        ],
        #[cfg(feature = "full")]
        "C08" => &crate::r1cs::cluster::PROBES,
        _ => &[],
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "One case is one simulated run: 1-20 caller threads with hash, instance and parameter-read calls drawn from the run seed, interleaved by the seeded scheduler at the instrumented branches, loads and stores. Non-trivial: the scheduler acted inside a call. Distinct: by the calls of each thread and the sequence of (from thread, to thread, code location) of every switch.",
        "C02" => "One case is one simulated run: a history of operations on reused instances (1-4 threads, one instance at a time in use), with inputs that make the inverse S-box panic at a chosen round. Non-trivial: at least two operations. Distinct: by the operations and the switch sequence.",
        "C03" => "One case is one simulated run in which callers are preempted, paused until everybody else is done, killed, re-entered by an interrupt handler, or see the clock jump at seeded points inside a call. Non-trivial: such an event fired inside a call. Distinct: by the operations and the sequence of switches and faults with their code locations.",
        "C04" => "One case is one simulated run whose allocator refuses every request of the library, from the start or from a seeded point on. Non-trivial: the heap was exhausted from the start, or an event fired inside a call. Distinct: by the operations and the sequence of switches and faults.",
        "C05" => "One case is one simulated run: 1-4 threads synthesise circuits (allocations, linear and multiplication gadgets, in-circuit hashes of every rate and of user-built parameter sets) in proving, setup and no-matrices mode, interleaved, some abandoned half-way. Non-trivial: at least two operations. Distinct: by the operations and the switch sequence.",
        "C06" => "One case is one simulated run: the same circuit program is synthesised by several nodes under different modes, values, goals, histories, interleavings and abandonments, and compared. Non-trivial: at least two operations. Distinct: by the operations and the switch sequence.",
        "C07" => "One case is one simulated run: an honest assignment of a circuit with hash claims is corrupted in a seeded way, many times, with and without adversarial repair of the remaining witnesses. Non-trivial: at least two operations. Distinct: by the operations with the corruption kinds.",
        "C08" => "One case is one simulated run of a cluster of key-generating, proving and verifying nodes over a faulty network and faulty disks. Non-trivial: at least one fault fired or a dishonest prover acted. Distinct: by the sequence of delivered events.",
        "C09" => "One case is one simulated run: concurrent readers of shared matrices and parameter sets and writers to private copies. Non-trivial: at least two operations. Distinct: by the operations and the switch sequence.",
        "C10" => "One case is one simulated run of a seeded history of native calls on a node of one build, under that node's own interleaving; histories without schedule-dependent results are compared node by node across the builds, all are checked against the reference model. Non-trivial: at least two operations. Distinct: by the operations and the switch sequence.",
        _ => "One case is one simulated run.",
    }
}

fn components(prop: &str) -> Value {
    let real_native = json!(["poseidon377 (hash, parameter tables)", "poseidon-permutation (Instance)", "poseidon-parameters (matrices)", "decaf377 field arithmetic (uninstrumented)"]);
    let real_r1cs = json!(["poseidon377::r1cs", "poseidon-permutation::r1cs", "poseidon377 native hash", "ark-relations / ark-r1cs-std (uninstrumented)"]);
    match prop {
        "C05" | "C06" | "C07" => json!({"real": real_r1cs, "simulated": ["thread scheduling", "prover memory faults", "synthesis abandonment"], "stub": ["none"]}),
        "C08" => json!({"real": ["poseidon377::r1cs", "poseidon-permutation::r1cs", "poseidon377 native hash", "ark-groth16 (uninstrumented)"], "simulated": ["network", "disk", "clock", "node lifecycle", "randomness (seeded)"], "stub": ["the protocol that carries keys, statements and proofs between nodes is harness code"]}),
        _ => json!({"real": real_native, "simulated": ["thread scheduling", "clock and sleep", "futex", "heap exhaustion", "kill, pause, re-entry"], "stub": ["none"]}),
    }
}

pub fn write(cfg: &Cfg, s: &Sum, wall: f64, violations: u64, extra: Value) -> std::io::Result<()> {
    let mut fired = Map::new();
    for k in 0..NACT {
        let n = s.fired.get(k).copied().unwrap_or(0);
        if n > 0 {
            fired.insert(ACT_NAMES[k].into(), n.into());
        }
    }
    let off = if cfg.prop == "C08" { 16 } else { 0 };
    if cfg.prop == "C08" {
        for (i, n) in probes("C08").iter().enumerate().take(17).skip(1) {
            fired.insert(n.to_string(), s.probes.get(off + i).copied().unwrap_or(0).into());
        }
    }
    let mut pr = Map::new();
    for (i, n) in probes(&cfg.prop).iter().enumerate() {
        pr.insert(n.to_string(), s.probes.get(off + i).copied().unwrap_or(0).into());
    }
    let hours = (s.elapsed_s / 3600.0).max(1e-9);
    let mut cov = json!({
        "evaluations": s.runs,
        "distinct_nontrivial": s.traces.len(),
        "rule": rule(&cfg.prop),
        "samples": s.samples,
        "simulated_runs_per_hour": (s.runs as f64 / hours).round(),
        "seeds_per_hour": (s.runs as f64 / hours).round(),
        "operations": s.ops,
        "operation_kinds": s.op_kinds,
        "simulated_time": {
            "scheduling_points_passed": s.points,
            "simulated_clock_ms": s.sim_ns / 1000,
        },
        "injected": fired,
        "allocations_refused": s.refused,
        "allocations_seen_in_calls": s.allocs,
        "futex_waits_simulated": s.futex_waits,
        "accesses_to_process_wide_writable_memory_in_calls": s.shared_hits,
        "context_switches": s.switches,
        "runs_with_several_calls_in_flight": s.multi,
        "most_calls_in_flight_at_once": s.max_inflight,
        "closest_to_the_step_bound": s.closest as f64 / 1000.0,
        "slowest_run_s": s.slowest,
        "panics_provoked": s.panics,
        "distinct_interleavings": {"count": s.traces.len(), "measure": "hash of the operations per thread and of the whole sequence of switches and faults with their code locations"},
        "branches": {"instrumented": s.guards, "visited": s.covered},
        "repeated_runs_compared": {"count": s.redone, "rule": "every 64th run was run again from its seed and once more from its recorded schedule; results, schedule and trace hash had to be identical"},
        "components": components(&cfg.prop),
        "measured": pr,
    });
    if let (Value::Object(c), Value::Object(e)) = (&mut cov, extra) {
        c.extend(e);
    }
    let j = json!({
        "property": cfg.prop,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": assumptions(&cfg.prop),
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
    });
    let dir = format!("{}/evidence", cfg.verif);
    std::fs::create_dir_all(&dir)?;
    std::fs::write(format!("{dir}/{}.json", cfg.prop), serde_json::to_string_pretty(&j).unwrap() + "\n")
}

fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "nothing is claimed about cases not drawn: this is seeded search, not enumeration",
        "the reference model (own implementation of the published procedure) is right",
        "decaf377 and arkworks arithmetic is trusted; it runs as it is, without scheduling points inside",
        "the crates are compiled by rustc with SanitizerCoverage callbacks, at opt-level 2 (rel, lite) or 0 (dbg)",
    ];
    match prop {
        "C01" | "C03" | "C09" => v.push("callers interleave under sequential consistency; weak-memory reorderings are not simulated"),
        "C08" => v.push("message and file transport is simulated; Groth16 itself is trusted to be sound"),
        _ => {}
    }
    v
}
