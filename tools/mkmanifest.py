#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
COMMON = ("Seeded search over simulated runs; holds for the runs explored, no more. Trusts the reference model, "
          "rustc, decaf377/arkworks arithmetic. ")
claims = {
 "C01": ("seeded interleavings of concurrent callers at instrumented branches, loads and stores, checked against a reference model", COMMON + "Sequentially consistent interleavings only."),
 "C02": ("seeded histories on reused instances with panics injected at chosen rounds, checked against a reference model", COMMON),
 "C03": ("callers paused, killed, re-entered and clock jumps injected at instrumented points; bounded progress and reference values", COMMON + "Progress is bounded by 2^28 of a call's own steps."),
 "C04": ("allocator refusing every request from a seeded point on, process survival and reference values", COMMON),
 "C05": ("seeded circuit programs synthesised by several interleaved provers in all synthesis modes, some abandoned half-way; in-circuit values compared with the native hash and the finished system evaluated", COMMON + "Oracle for in-circuit values: the library's own native hash (itself checked by C01). Exponents 5 and 17-like positive ones only: the gadget refuses inverse exponents by design."),
 "C06": ("the same seeded circuit synthesised by nodes that differ in mode, witness values, optimisation goal, history and interleaving; constraint systems compared with the one a key-generating node arrives at", COMMON + "Shapes are compared by the matrices ark-relations exports."),
 "C07": ("memory faults and adversarial provers: seeded corruption of honest assignments, with solver-driven repair of the remaining witnesses; any satisfied assignment must state a true hash", COMMON + "An attack is found only if seeded corruption plus linear repair reaches it."),
 "C10": ("the same seeded histories run on simulated nodes of six builds (circuits and 64-bit arithmetic with and without debug assertions, the default features, 32-bit no_std without and with alloc, 32-bit std), each under its own interleaving; results compared node by node and with a reference model", COMMON + "Six builds: rel, dbg, lite, mid, dflt, lal (sim/build.sh)."),
 "C08": ("discrete-event cluster of key-generating, proving and verifying nodes running the real gadgets and Groth16 over faulty links and disks, with crashes, partitions, stalls, clock skew and cheating provers; accepted statements checked for truth and honest claims for bounded progress", COMMON + "Key exchange, statements and storage formats are harness code around the real gadgets and ark-groth16; cluster nodes share one process, so process-wide statics are shared between them."),
 "C09": ("concurrent readers and private writers of matrices and parameter sets, checked against reference algebra", COMMON + "Square inverses and minors up to 8x8 (the documented limit)."),
}
na = {
 "C11": "A fact about constants, decided by evaluating formulas: there is no schedule, clock, I/O, history or fault it could depend on.",
 "C12": "A fact about constant matrices, decided by algebra: there is no schedule, clock, I/O, history or fault it could depend on.",
 "C13": "The generator is a single-threaded pure function without I/O beyond printing, and it does not compile at this commit (excluded from the workspace, incompatible with the current poseidon-parameters): nothing to simulate.",
 "C14": "Cryptographic hardness: not decidable by executing the code under any schedule or fault.",
 "C15": "A statement about the instruction trace of a pure function: no schedule or fault for it to depend on; deciding it is taint or trace analysis, a different technique.",
}
checks = [dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
               technique=T + t, level="exploration", level_note=n) for p, (t, n) in sorted(claims.items())]
for p in claims: na.pop(p, None)
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(na.items())],
         notes="No hooks in /repo: the crates are instrumented at compile time by sim/rustc-wrap.sh, and the simulator's seams are interposed libc symbols and the global allocator.")
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
