# Regenerates MANIFEST.json. Run with python3-vt to validate it against the schema.
import json, os
TECH = "deterministic simulation with fault injection: "
COMMON = ("Seeded search, not proof: each run is one seeded plan (workload, schedule, faults) executed by the unmodified code of /repo against the simulated "
          "libc (files, clock, entropy, threads); verdicts are compared with an independent model. Trusted: the simulator, the model, the Rust toolchain. ")
C = {
 'C01': ("seeded histories of reservations over a faulty in-memory disk", "n = 3..14 (quick), stale contents, short/EINTR/EIO/ENOSPC/torn writes, failed opens; success must leave exactly the zero file."),
 'C02': ("seeded disk faults during marking, table decoded by an independent model", "n = 3..11 (quick); own decoder and own MiMC-5; 1-byte writes make short writes of data impossible, so the disk faults are errors and interruptions."),
 'C03': ("seeded crash, torn-write and power-loss points, chained, then rerun", "Process crash keeps completed writes and a prefix of the one in flight; power loss keeps a seeded subset of unsynced writes."),
 'C04': ("seeded challenge rounds with read faults against a model of the answer", "Uses the production constants (50 responses) on tables of n = 3..11."),
 'C05': ("whole protocol runs (driver, sample program, step by step) on a faulty disk, judged by the real verifier", "Complete runs use the small constants of cfg(verif_sim); the production constants are used in the thorough tier only."),
 'C06': ("several prover/verifier sessions over a simulated network with loss, duplication, reordering, misdelivery, corruption and bit rot", "Small constants of cfg(verif_sim). Groth16 itself is trusted beyond the malleations tried."),
 'C07': ("Byzantine prover node: seeded search over wire assignments of the real constraint system, forged proofs judged by the real verifier", "Finds missing or weakened constraints by splicing sessions, freeing wires, aliasing bit decompositions and linear compensation; a constraint system that is unsound only through a non-affine coincidence can escape. The trusted setup is assumed honest; that x is below 2^n is not claimed."),
 'C08': ("seeded parameter sets and disk faults through pad, seal, unseal, compress and the drivers", "Primes of 64 to 2048 bits, up to 70000 blocks or units in special plans."),
 'C09': ("seeded histories of spot queries with read faults", "Single, batch and range queries against the original blocks and the unchanged sealed file."),
 'C10': ("seeded thread scheduler over every futex, thread start/exit and allocation", "One thread runs at a time, switches at synchronisation points and allocations: data races on plain memory between those points are not explored (safe Rust rules them out). A loop that spins without any system call or allocation is only caught by the wall-clock limit."),
 'C11': ("prover/verifier audits with bit rot, message tampering, replay, read faults and scheduled worker threads", "The set of blocks an audit touches comes from a reference model of the dependency rules. Dropped messages are not claimed."),
 'C12': ("Merkle trees over a faulty disk and tampered proofs against an independent Merkle tree", "rs_merkle and SHA-256 run for real; the model is written separately."),
 'C13': ("seeded histories of saves and loads with crashes, torn writes and disk errors", "Process crashes and disk errors; power loss is not claimed (the code does not sync)."),
 'C14': ("seeded crash and power-loss chains through pad and seal, with varied clock, entropy and stale files", "Compared with a fault-free sealing of the same inputs."),
 'C15': ("seeded entropy streams, entropy faults, clocks and restarts", "Bias is judged at 9 standard deviations, so slight biases pass."),
 'C18': ("honest and Byzantine prover nodes of the standalone circuits, messages altered and misdelivered, wire assignments searched by seed, forged proofs judged by the real verifier", "Inputs of the power and MiMC circuits are read off the prover's own wires, found by value over honest samples; a circuit that keeps no such wire is only checked with honest provers. A constraint system that is unsound only through a non-affine coincidence can escape. The trusted setup is assumed honest."),
 'C16': ("seeded re-sealings and partly stale replicas, audited", "Binding is checked on pairs of sealings that differ in one place."),
}
LEVEL = {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
ids = [p['id'] for p in props]
checks = [dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
               technique=TECH + C[i][0], level="exploration", level_note=COMMON + C[i][1]) for i in ids if i in C]
NA = {
 'C17': "pure conversions of their input: no schedule, clock, entropy, I/O, crash or second party for a simulator to control (they are exercised inside C01-C06, where a wrong conversion breaks the table or the answers)",
 'C19': "pure arithmetic of its input: nothing for a simulator to schedule or fail (it is exercised inside C08-C16, where a wrong inverse breaks the round trip)",
}
m = dict(version=1, setup_cmd="./check.sh build",
         hooks=dict(guard="cfg(verif_sim), cfg(verif_gadget)", enable="sim/pospace_small/build.rs and sim/pospace_gadget/build.rs pass --cfg verif_sim and --cfg verif_gadget to their own build of the proof_of_space crate; pospace_real and postorage_real build /repo without it", source_commits=["5d41f73", "2d9e075", "0fd934e"]),
         checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in C],
         notes="Replay a violation with ./check.sh replay FILE. Known and fixed findings: known_findings.jsonl.")
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(checks))
except ImportError:
    pass
