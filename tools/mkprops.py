#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
PERM="poseidon-permutation/src/permutation.rs"; R1P="poseidon-permutation/src/r1cs.rs"
HASH="poseidon377/src/hash.rs"; R1H="poseidon377/src/r1cs.rs"; LIB="poseidon377/src/lib.rs"
MAT="poseidon-parameters/src/matrix.rs"; MDS="poseidon-parameters/src/mds_matrix.rs"; ARC="poseidon-parameters/src/arc_matrix.rs"; MOPS="poseidon-parameters/src/matrix_ops.rs"
RATES=["poseidon377/src/params/rate_%d.rs"%i for i in range(1,8)]

prop("C01","Concurrent hash calls never affect one another",
 "Whatever calls other threads of the process are in the middle of, every native fixed-width hash call (rates 1 to 7, and permutation instances sharing one parameter set) returns the Poseidon value of its own domain separator and its own inputs in their given order, exactly as if it had run alone. This holds for every interleaving of the callers, at any point inside a call, and for every input value.",
 ["schedules","inputs"],"every interleaving of 1..10 caller threads at the granularity of single memory accesses and branches inside the library, every argument value including repeated, shared and edge values",
 "The existing tests call each hash once or a few times from one thread with fixed inputs, never two calls in flight at once, and have no known answer for rate 7.",
 [HASH,PERM,LIB]+RATES,[("a fresh instance per hash call, no shared mutable state",HASH),("parameters borrowed immutably by every instance",PERM)],
 ["return value of hash_1..hash_7","n_to_1_fixed_hash / unoptimized_n_to_1_fixed_hash / output_words of instances sharing a parameter set"])
prop("C02","A reused instance carries nothing from one hash to the next",
 "A permutation instance may be reused for any history of optimized and unoptimized hash calls, including calls abandoned half-way by a panic, and with any parameter set: each completed call returns the same value a fresh instance would, and the optimized and unoptimized algorithms agree. After a completed call the exposed state words are the full permuted state of that call, whose second word is the returned value; a fresh instance exposes zeros.",
 ["histories","fault_sequences"],"every sequence of operations on one instance, with a panic interrupting any call at any round, over shipped and user-built parameter sets (any width, round numbers, exponent or inverse S-box, non-symmetric matrices)",
 "Tests use an instance for a single call, only with the shipped (symmetric-matrix, exponent-17) parameters of rates 2 and 4, and never interrupt one.",
 [PERM],[("input words overwrite the whole state at the start of each call",PERM),("equivalent optimized constants and sparse matrices",PERM)],
 ["n_to_1_fixed_hash","unoptimized_n_to_1_fixed_hash","output_words"],
 state=[dict(name="state words",meaning="the permutation state, overwritten per call",where=PERM)])
prop("C03","A paused, killed or interrupted caller never holds others up",
 "If a thread is paused for arbitrarily long, killed, or interrupted by a re-entrant call (a signal or interrupt handler that itself hashes) at any instant inside a native hash or matrix call, every other caller, and the re-entrant call itself, still finishes within a bounded number of its own steps and returns the correct value. The paused or interrupted call also returns its correct value when it is resumed.",
 ["fault_sequences","schedules"],"every instant at which a caller is paused, killed, re-entered or sees the clock jump, for every set of concurrent callers",
 "No test pauses, kills or re-enters a call; a lock, spin-wait or per-thread scratch buffer that breaks this is invisible to a test that runs calls to completion one at a time.",
 [HASH,PERM,MAT],[("no locks, no statics, no thread-locals: every call works on its own stack",PERM)],
 ["completion and return value of calls in other threads","completion and return value of re-entrant calls"])
prop("C04","Native hashing and matrix arithmetic survive an exhausted heap",
 "Native hashing (all rates, optimized and unoptimized), reading parameter sets, and matrix arithmetic complete with the correct result when the heap is exhausted, from the start or from any later instant, and never abort the process because an allocation was refused.",
 ["fault_sequences","histories"],"every point from which allocations start to be refused, during every history of native calls",
 "Tests run with a working heap; the CI job that builds for a target without an allocator only compiles, runs nothing, and does not cover the std build that servers use.",
 [HASH,PERM,MAT,MDS,ARC],[("fixed-size arrays on the stack instead of heap vectors",MAT)],
 ["process survival","return values under a refusing allocator"])
prop("C05","The in-circuit hash equals the native hash in any circuit history",
 "Whatever has already been synthesised in a constraint system, in whatever mode, and whether the hash arguments are witnesses, public inputs, constants, linear combinations, earlier hash results or the same variable used several times, the in-circuit hash of each rate returns a variable whose value is the native hash of the argument values, and an honestly assigned constraint system is satisfied. Synthesis never fails or panics for want of an assignment while keys are being set up, and an abandoned synthesis leaves no trace in later ones.",
 ["histories","schedules","fault_sequences"],"every history of allocations, hashes and other gadgets in one constraint system, with syntheses interleaved across threads, abandoned half-way, or run without assignments",
 "Tests synthesise one fixed circuit (each rate once, witnesses with a constant separator) from a fresh constraint system.",
 [R1H,R1P,HASH],[("gadget rounds mirror the unoptimized permutation",R1P)],
 ["value of the returned variable","satisfaction of the constraint system","absence of errors in setup mode"])
prop("C06","The circuit is the same on every node, for every value and history",
 "Synthesising the same circuit program yields exactly the same constraints, variables and coefficients on every node: with or without assignments, for every witness value, in setup or proving mode, after any number of earlier, concurrent or crashed syntheses, and at any position of a larger circuit. Hence keys generated once keep working for every later proof.",
 ["histories","inputs","fault_sequences","schedules"],"every assignment, synthesis mode, preceding history, interleaving and crash-restart point of the synthesising nodes",
 "The proof tests cover five random witnesses of one circuit against one stored key; a shape that depends on a special value, on the mode, or on what ran before would pass.",
 [R1H,R1P],[("constraint generation never branches on assignments",R1P)],
 ["the A, B, C matrices and variable counts of the constraint system"])
prop("C07","A corrupted or dishonest prover state never satisfies a false claim",
 "For fixed hash arguments there is exactly one hash result the constraints admit: whatever subset of the prover's intermediate witness values is corrupted, replaced, replayed from another proof or chosen by an adversary who repairs everything else to fit, the constraint system is satisfied only if the claimed result is the native hash of the arguments.",
 ["fault_sequences","inputs"],"every corruption of the assignment (single and multiple bit flips, stale values, torn mixes of two assignments, adversarial substitutions with downstream repair), for every rate and argument kind",
 "The unhappy-path test only changes the public inputs of an honest proof; it never corrupts a witness, so a missing constraint goes unnoticed.",
 [R1H,R1P],[("every S-box output is bound by constraints to its input",R1P)],
 ["satisfaction of the constraint system under tampered assignments"])
prop("C08","Provers and verifiers agree end to end despite faulty links and disks",
 "In a cluster of key-generating, proving and verifying nodes that exchange keys, statements and proofs over lossy, duplicating, reordering and corrupting links and disks, with nodes crashing and restarting, a verifier never accepts a statement whose hash claim is false, and once faults stop every honest true claim is proved and accepted within a bounded time, using keys generated by any node at any earlier moment, including the keys shipped with the project.",
 ["fault_sequences","crash_points","schedules","histories"],"every sequence of message loss, duplication, reordering, corruption, partition, crash and restart, torn or corrupted key file, and dishonest prover",
 "The proof tests are one prover and one verifier in one function, with one circuit; no message or key is ever lost, damaged, replayed or used for another statement.",
 [R1H,R1P,HASH,"poseidon-tests/tests/poseidon377_r1cs.rs"],[("in-circuit and native hash compute the same function",R1P),("stable circuit shape",R1P)],
 ["verifier decisions","time to acceptance after the last fault"])
prop("C09","Shared parameters and matrices read correctly under concurrent use",
 "Parameter sets and matrices may be read and computed with by any number of callers at once: every product, transpose, determinant, minor, cofactor, inverse, row, sub-block and element read returns the mathematically correct value for the operand it was given, an inverse is refused without panicking exactly when none exists, operands are never changed, and the shipped parameter sets always read as the values their published generation procedure yields. Element writes change exactly the addressed element and nothing else, whatever readers of other matrices do meanwhile.",
 ["schedules","inputs","histories"],"every interleaving of concurrent readers and of writers to private copies, every matrix of the supported sizes including singular and structured ones",
 "Tests check a few fixed matrices from one thread (determinants mostly of singular matrices), inverses of 1x1, 2x2 and 3x3 only, and never read most of the shipped parameter tables.",
 [MAT,MDS,ARC,MOPS]+RATES,[("values stored inline, operations take shared references and return new values",MAT)],
 ["results of matrix operations","parameter fields of the shipped sets"])
prop("C10","Every build of the library gives the same answers",
 "Nodes running differently configured builds - with or without the standard library, with the 32-bit or the 64-bit field arithmetic, with or without debug assertions - return identical results for identical histories of native hash, instance, parameter and matrix calls, and none of them panics or aborts where another does not, so a mixed deployment never disagrees on a hash.",
 ["configurations","histories","schedules"],"every build configuration listed, every history and interleaving of native calls",
 "The test suite runs in a single configuration (std, 64-bit arithmetic, debug assertions on); the no_std and 32-bit configurations are only compiled in CI and the release configuration is never tested.",
 [HASH,PERM,MAT,LIB],[("one source for all configurations, arithmetic behind one field type",LIB)],
 ["results of the same calls in each build"])
# ---- not simulation targets
prop("C11","Shipped round numbers and S-box exponent meet the security bounds",
 "For each shipped rate the number of full and partial rounds and the exponent satisfy the statistical, interpolation and Groebner-basis bounds of the Poseidon paper at the stated security level, with its safety margin, and the exponent is coprime to the order of the multiplicative group.",
 ["configurations"],"each shipped parameter set","Tests compare outputs with known answers and never evaluate the bounds.",
 RATES,[("constants in the parameter tables",RATES[0])],["rounds and exponent of each parameter set"])
prop("C12","Shipped mixing matrices are MDS and admit no invariant subspace trails",
 "Every square submatrix of each shipped mixing matrix is non-singular, and the matrix passes the published tests against infinitely long subspace trails.",
 ["configurations"],"each shipped parameter set","Tests never examine submatrices or subspaces.",
 RATES,[("Cauchy construction",RATES[0])],["mixing matrix of each parameter set"])
prop("C13","The parameter generator reproduces the shipped parameter sets",
 "Running the parameter generation tool for the field, security level and width of a shipped set, on any machine and at any time, emits exactly the shipped set.",
 ["programs","configurations"],"each shipped width, every machine","The generator is excluded from the workspace and its tests do not run.",
 ["poseidon-paramgen/src/v1.rs","poseidon-paramgen/src/poseidon_build.rs"],[("transcript-derived constants","poseidon-paramgen/src/transcript.rs")],["generated source text"])
prop("C14","The hash is collision and preimage resistant across inputs and domains",
 "It is computationally infeasible to find two different argument tuples of the same rate with the same hash, or an argument tuple with a given hash, and distinct domain separators give independent functions.",
 ["inputs"],"all argument tuples","Not testable by sampling.",
 [HASH],[("the Poseidon permutation",PERM)],["hash values"])
prop("C15","Native hashing does not branch on secret values",
 "The sequence of instructions and memory addresses the library's own code goes through in a native hash call does not depend on the values being hashed.",
 ["inputs"],"all argument values","Tests observe results only.",
 [PERM,HASH],[("no data-dependent branch or index in the permutation",PERM)],["control flow and addresses of a hash call"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
