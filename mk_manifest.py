#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in the repository; run by hand after changing a check)."""
import json
T = {
 "C01": ("generated field elements against a big-integer reference of the MiMC maps", "Two fields; edge-biased elements; a wrong exponent, round, constant or fold order shows in every case."),
 "C02": ("generated bit and byte lists against a bit-by-bit model, round trips", "Every width 1..64 and every length modulo 8."),
 "C03": ("generated spaces and histories against an inverse table computed independently", "Whole file compared bit by bit; n limited by the 2^n cost of marking."),
 "C04": ("generated space files and challenge lists against an independent bit unpacker", "Arbitrary file contents, not only marked ones."),
 "C05": ("generated honest sessions through the real prover and verifier", "Real Groth16 proofs; few cases because each costs seconds."),
 "C06": ("generated alterations of accepted transcripts (fault injection) against the real verifier", "Real Groth16; rejection observed as a panic."),
 "C07": ("generated statements, witnesses and forged assignments on the constraint system; relation oracle, Jacobian kernel, setup/prove matrix equality", "The kernel test shows local uniqueness of the witness at generated points, not a proof of global uniqueness."),
 "C08": ("generated preimages and forged assignments on the constraint system; function oracle, Jacobian kernel, setup/prove matrix equality", "As C07; the structs are reached through guarded constructors."),
 "C09": ("generated statements and forged assignments on the constraint system; relation oracle, Jacobian kernel, bit flips, y + modulus", "As C07."),
 "C10": ("repeated sampling with exact range/count checks and statistics of negligible false-alarm probability", "OS randomness is not seedable; bounds are set so that a false alarm has probability below 2^-40."),
 "C11": ("exhaustive small primes, generated elements of large primes; definition of the step, Euler criterion, differential between two libraries", "Exhaustive below the bound; sampled for 64..2048 bits."),
 "C12": ("generated units and hashes against big-integer arithmetic, round trips", "Wrap-around cases constructed on purpose."),
 "C13": ("generated layouts against the documented rule (deterministic modes) and a validity predicate (hash-driven modes)", "All index widths; the hash-driven choice itself is only constrained by validity, determinism and dependence on the hash."),
 "C14": ("model-based histories of pad/seal/unseal/compress cycles, byte equality with the original", "Small layouts densely, wide layouts (beyond 256 and 65536 blocks or units) sparsely."),
 "C15": ("generated requests on sealed files against the original blocks and slices of the file", "All dependency modes, ranges, repeated and unordered requests."),
 "C16": ("differential: parallel against sequential unsealing for generated thread counts and requests", "Schedules are those the OS produces in thousands of runs; the harness does not own the scheduler."),
 "C17": ("fault injection: one generated alteration at a time, all three verification paths, equality with the original decides", "Alterations that cannot reach a block must leave it accepted."),
 "C18": ("generated files, index sets and alterations; hashes recomputed independently, differential file/memory", "SHA-256 of rs_merkle is trusted."),
 "C19": ("differential against an independent sealing written from the primitives, metamorphic single-byte and IV changes", "The dependency lists themselves are C13's business and are taken from the code."),
 "C20": ("model-based save/load histories, statistics on fresh IVs", "The model is the last value saved per path."),
 "C21": ("generated layouts and old contents against byte-exact models; own MD5", "BLAKE3 is compared with the library's one-shot function."),
 "C22": ("repeated sampling with exact checks, coverage and statistics of negligible false-alarm probability", "OS randomness is not seedable."),
 "C23": ("Hypothesis-generated numbers and file pairs; sympy and byte equality as oracles, pooled error rate on worst-case composites", "Scripts run from /repo, seeded."),
}
json.dump({
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "cfg(verif_hooks)", "enable": "the wrapper crates in /verif/wrap compile /repo's sources with --cfg verif_hooks (wrap/*/build.rs)", "source_commits": ["7551d9c"]},
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}", "technique": "property-based testing: " + t, "level": "exploration", "level_note": n} for k, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "All properties are decided by generated-input search against an explicit oracle; see DESIGN.md.",
}, open("MANIFEST.json", "w"), indent=1)
