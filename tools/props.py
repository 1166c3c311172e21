import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S='proof_of_space/src/proof_of_space/'
C='proof_of_space/src/circuit/pospace_circuit.rs'
T='proof_of_storage/src/proof_of_storage/'
prop('C01','Space reservation is exact and all-zero, or fails visibly',
 "Reserving space for parameter n (n >= 3) at a path leaves exactly (n+1)*2^n/8 bytes there, all zero, whatever the path held before (nothing, a longer or shorter file, an older marked table) and however often it is repeated. If the storage layer fails, stalls or runs out of room during the call, the call fails visibly (error or panic); it never reports success over a file that is short, long or non-zero. Once the faults stop, repeating the call succeeds.",
 ['inputs','fault_sequences','histories'],
 "every n, every prior content of the path, every sequence of short/interrupted/failed writes, full disk, failed opens, and every number of repetitions",
 "No stable test reserves space at all (the only end-to-end test is excluded from the stable set); a test would sample one n on a healthy disk and an empty path.",
 [S+'prover.rs'],[('truncate-then-fill with a fully-completed write per byte',S+'prover.rs: prepare_space')],
 [('reserved file','(n+1)*2^n bits, one (n+1)-bit slot per n-bit value',S+'prover.rs: prepare_space')],['file content and length after the call, result of the call'])
prop('C02','Marking stores a true preimage for every reachable slot and nothing else',
 "After reserving and marking with a given key, message and constants, the slot of every n-bit value v is flagged occupied exactly when some x in [0,2^n) has a delay-function output whose low n bits equal v, and an occupied slot then holds one such x bit for bit; unoccupied slots stay zero and the file keeps its length. If storage calls are interrupted, cut short or fail during marking, the call either still produces exactly such a table or fails visibly. The result does not depend on the clock.",
 ['inputs','fault_sequences','schedules'],
 "every n, key, message and round constants; every sequence of interrupted, short or failed reads, writes, seeks and opens; every clock behaviour",
 "No stable test marks space; the slots straddle byte boundaries (n+1 bits each) so a defect shows only for particular slots, collisions and fault positions.",
 [S+'prover.rs',S+'convert.rs','proof_of_space/src/mimc/mimc_df.rs'],[('read-modify-write of each (n+1)-bit slot',S+'prover.rs: mark_space'),('x little-endian plus flag bit',S+'convert.rs')],
 [('slot table','n bits of x then one occupied flag per slot',S+'prover.rs: mark_space')],['file content after the call, decoded by an independent reader and compared with an independent delay function'])
prop('C03','A crash while reserving or marking space is repaired by running again',
 "If the process dies, or the machine loses power, at any storage operation while space is being reserved or marked, then running reserve and mark again on what is left yields exactly the table of an uninterrupted run. If only the process died during marking (completed writes survive, the write in flight may be torn), running marking again alone also yields a table in which every slot is correct.",
 ['crash_points','histories','fault_sequences'],
 "every operation at which the process or machine stops, including in the middle of a write; every subset of not-yet-durable writes lost at power failure; chains of several crashes",
 "Tests never crash the process, and a crash at one of thousands of one-byte writes cannot be sampled by hand.",
 [S+'prover.rs'],[('truncation on reserve; idempotent slot rewrite on mark',S+'prover.rs: prepare_space, mark_space')],
 [('slot table','durable file content surviving the crash',S+'prover.rs')],['file content after recovery'])
prop('C04','Challenge answers are truthful, in order, complete and non-destructive',
 "Given any list of challenged slots, the first response answers exactly the first R challenges (R is the required response count) whose slots are occupied in the stored table (all of them if fewer), in increasing challenge order, each with the x stored in that slot, plus the chained hash of exactly those x values under the key. It never changes the stored file. If storage fails during the call it fails visibly; it never returns an x that the table does not hold.",
 ['inputs','fault_sequences','histories'],
 "every table, challenge list (including repeated challenges and lists longer than R), key and hash constants; every sequence of read faults; repeated and interleaved rounds of challenges on the same table",
 "The stable tests never read a table back; the stop-at-R rule, repeated challenges and slots straddling bytes need specific inputs.",
 [S+'prover.rs','proof_of_space/src/mimc/mimc_hash.rs'],[('slot decoding and early stop',S+'prover.rs: response_1'),('chained hash','proof_of_space/src/mimc/mimc_hash.rs: multi_mimc5_hash')],
 [],['returned x list, index list and hash; file content before and after'])
prop('C05','An honest proof-of-space run is accepted, on every seed and disk hiccup',
 "When prover and verifier follow the protocol (reserve, mark, challenge, answer, prove, verify) over a disk that works, if only piecemeal (short reads and writes), and at least R of the challenged slots are occupied, the verifier accepts and the run's record is appended to the result log. When fewer than R challenged slots are occupied, or a storage operation fails, the run fails visibly and appends no complete record; earlier records in the log are never altered.",
 ['inputs','fault_sequences','histories'],
 "every key, message, constants, entropy stream and challenge draw; every sequence of short or failed storage calls; repeated runs sharing the same files",
 "The only end-to-end test takes minutes, is excluded from the stable set, and samples a handful of runs on a healthy disk.",
 [S+'pospace.rs',S+'prover.rs',S+'verifier.rs',C],[('protocol driver',S+'pospace.rs: pospace, test_pospace'),('witness generation',C)],
 [('result log','one record per accepted run',S+'pospace.rs: pospace')],['acceptance (no panic) and the result log'],'small N, response and challenge counts under cfg(verif_sim) so that many full proof runs fit in a check')
prop('C06','A verifier rejects every altered, replayed, misdelivered or repeated answer',
 "The verifier accepts a proof-of-space answer only together with the key, message, challenge list, answered indices and hash it was made for: if in transit or by replay any of these or the proof is changed, swapped with another session's, reordered, duplicated or truncated, or the answered indices are not R distinct challenges in increasing order, verification fails visibly. An answer computed from a table damaged by bit rot is rejected whenever an answered slot no longer holds a true preimage. A fault on one message never makes the verifier reject a later correctly delivered answer.",
 ['histories','fault_sequences','inputs'],
 "every interleaving of several prover/verifier sessions and every sequence of message loss, duplication, reordering, delay, corruption, cross-delivery and replay; every bit flip in the stored table",
 "No stable test calls the verifier of the space proof, and none delivers it anything but the honest answer.",
 [S+'verifier.rs',S+'prover.rs'],[('pairing check result and index-order check',S+'verifier.rs: verify')],
 [],['accept/reject of each delivered answer compared with the session the verifier opened'],'small constants under cfg(verif_sim)')
prop('C07','No dishonest prover gets an answer accepted without true preimages',
 "A prover that deviates in how it fills in its proof (free choice of every internal witness value) cannot obtain acceptance for a statement its answers do not satisfy: for an accepted answer, under the public key and message, each answered value's delay-function output has exactly the challenged low bits, and the published hash is the chained hash, under that key, of exactly those answered values. In particular wrong message or key, a slot the value does not map to, a hash of other values, permuted values, and non-canonical representations of the delay output are all rejected.",
 ['inputs','programs','histories'],
 "every dishonest prover strategy (choice of witness values) and every false statement about key, message, slots and hash",
 "Honest-path tests exercise only witnesses produced by the honest generator; missing constraints are invisible to them.",
 [C],[('R1CS constraints tying answers, key, message, slots and hash together',C)],
 [],['acceptance by the real verifier of proofs made by simulated dishonest provers'],'small constants under cfg(verif_sim)')
prop('C08','Sealing then unsealing gives back the original data exactly',
 "For every supported parameter set (block and unit counts, sealing and delay rounds, every long- and short-dependency mode and count, including more than 256 blocks or units), every content of the original file, key and iv, padding, sealing, unsealing and compressing yields a file identical to the original, also through the top-level driver and whatever the target paths held before. If storage calls are interrupted, cut short or fail on the way, the outcome is either that same result or a visible failure. The original file is never modified.",
 ['inputs','configurations','fault_sequences'],
 "every parameter set and file content; every sequence of short, interrupted or failed storage calls; stale content of the output paths",
 "The crate's round-trip tests run one parameter set (random dependencies) on a healthy disk and are not even in the stable set, as the crate did not compile.",
 [T+'prover.rs',T+'common.rs',T+'depend.rs',T+'postorage.rs','proof_of_storage/src/vde/rug_vde.rs','proof_of_storage/src/vde/rug_sloth.rs'],
 [('reverse-order unsealing with the same dependencies as sealing',T+'prover.rs: seal, unseal'),('dependency index rules',T+'depend.rs'),('complete reads',T+'common.rs: read_file')],
 [('sealed file','unit_pl-byte units, chained block by block',T+'prover.rs')],['unsealed file compared byte for byte with the original'])
prop('C09','Unsealing any chosen blocks gives the original blocks, without side effects',
 "From a sealed file, preparing and unsealing any single block, any set of challenged blocks or any byte range yields for each block covered exactly the corresponding original block (plus the pad byte of each unit), for every dependency mode. The sealed file is not modified, so the same query can be repeated and a later full unseal still works. Interrupted or failed reads lead to the right blocks or a visible failure, never to other data.",
 ['inputs','configurations','histories','fault_sequences'],
 "every block index, index set and byte range (also not block-aligned), every dependency mode and count, every order and repetition of queries, every sequence of read faults",
 "The existing (non-stable) test looks at the first ten blocks of one parameter set.",
 [T+'verifier.rs',T+'prover.rs',T+'depend.rs'],[('dependency collection',T+'verifier.rs: single_unseal_prepare, batch_unseal_prepare'),('block-local unsealing',T+'verifier.rs: batch_unseal')],
 [],['returned blocks, sealed file before and after'])
prop('C10','Parallel unsealing equals sequential unsealing under every schedule',
 "Unsealing a set of blocks on a pool of any size >= 1 returns exactly the blocks sequential unsealing returns, in the same order, under every interleaving of the worker threads, spurious wake-ups and stalled workers. It always terminates once the workers are allowed to run, never deadlocks, and leaves its inputs unchanged. If a worker thread cannot be started the call fails visibly or still returns the right blocks.",
 ['schedules','inputs','configurations','fault_sequences'],
 "every interleaving of the pool's threads (including preemption inside a job and around every lock operation), every pool size, number of blocks and dependency mode, thread-creation failures and spurious wake-ups",
 "A test samples whatever interleaving the operating system happens to produce; none of the stable tests runs the pool.",
 [T+'verifier.rs'],[('shared blocks behind read-write locks, join before reading the result',T+'verifier.rs: batch_unseal_parallel')],
 [('shared block vector','blocks being replaced by their unsealed form',T+'verifier.rs: batch_unseal_parallel')],['returned blocks; termination; event trace'])
prop('C11','Storage audits accept intact replicas and catch damage to what they touch',
 "An audit (challenge blocks, send them with their dependencies, unseal, compare with the original; sealed-block commitment checked with Merkle paths) of an intact sealed file is accepted, sequentially or in parallel. If a stored bit of a challenged sealed block, of a block it depends on, or of its predecessor has changed, or a delivered message is altered, swapped or replayed, the audit fails visibly. Damage elsewhere does not make an audit fail.",
 ['fault_sequences','histories','inputs','configurations'],
 "every bit flip, lost write or stale block in the sealed file, every message fault between prover and verifier, every challenge set and dependency mode",
 "The pipeline test only audits an intact file over a perfect channel.",
 [T+'verifier.rs',T+'merkle_tree.rs',T+'postorage.rs'],[('unseal and compare',T+'verifier.rs: batch_unseal_and_verify, batch_verify'),('commitment to sealed blocks',T+'merkle_tree.rs')],
 [],['accept/reject of each audit compared with whether anything it touches differs'])
prop('C12','Merkle commitments cover every byte of the file and only the true leaves',
 "The Merkle root computed from a file equals the root over the hashes of its consecutive leaves, so two files of equal length have the same root only if every byte is the same, first and last leaf included. A proof for any set of leaves generated from the tree verifies against the root of the same data and fails visibly against changed leaves, other positions, another root or an altered proof. Interrupted or short reads never change the root reported; storage failures are visible.",
 ['inputs','fault_sequences','histories'],
 "every file, leaf size and index set; every single-byte difference; every sequence of short or failed reads; altered, swapped or replayed proofs",
 "The non-stable test only verifies an honest proof against the same tree, which holds even if the tree ignores part of the file.",
 [T+'merkle_tree.rs',T+'common.rs'],[('leaf iteration and hashing',T+'merkle_tree.rs: generate_merkle_tree_from_file'),('proof check',T+'merkle_tree.rs: verify_merkle_proof')],
 [],['roots, leaves and verification results against an independent Merkle computation'])
prop('C13','Saved public data reads back as the last completed save, or loading fails',
 "Loading public data (key and iv) returns exactly what the last completed save wrote, whatever the file held before and however long the earlier contents were. If a save fails or the process dies inside it, a later load returns the complete old data, the complete new data, or fails visibly; it never returns a mixture or a truncated value. Short and interrupted reads never change what is loaded.",
 ['crash_points','histories','fault_sequences','inputs'],
 "every sequence of saves of different sizes with crashes, torn writes, full disk and failed calls at any point, followed by loads",
 "No test saves twice to the same path or interrupts a save.",
 [T+'postorage.rs'],[('truncate and serialise; self-delimiting encoding',T+'postorage.rs: save_data, load_data')],
 [('public data file','length-prefixed key string and iv',T+'postorage.rs')],['value returned by load against the history of saves'])
prop('C14','Sealing is crash-restartable, reproducible and leaves the original intact',
 "Padding and sealing the same original with the same key and iv always gives the same sealed file and the same block identifiers (each identifier being the hash of the stored sealed block), whatever the clock, entropy, earlier file contents or earlier crashes. If the process dies or power is lost at any storage operation of padding or sealing, running both again reaches that same sealed file, and the original is untouched throughout.",
 ['crash_points','histories','fault_sequences','schedules'],
 "every crash point and torn or lost write inside padding and sealing, chains of crashes, clock jumps and entropy streams",
 "Tests never interrupt sealing, and never seal twice to compare.",
 [T+'prover.rs',T+'common.rs'],[('padding rewrites the target from the untouched original',T+'prover.rs: copy_and_pad, seal')],
 [],['sealed file and returned identifiers across runs'])
prop('C15','Challenges and ivs are in range, distinct where promised, fresh and unbiased',
 "Space challenges are exactly as many as asked for, each below 2^n, and every slot can be challenged; storage challenges are exactly as many as asked for, distinct, increasing, inside the half-open range, and every position can be challenged (asking for more than exist fails visibly). Every draw of challenges, keys, constants, ivs and random files comes from fresh entropy: two draws in one process, or after a restart with the same clock, do not repeat, and values do not depend on the clock. Random files have exactly the requested length or the call fails visibly.",
 ['inputs','histories','schedules','fault_sequences'],
 "every entropy stream, clock, count and range; every sequence of draws and restarts",
 "No stable test draws a challenge; coverage and freshness are statements about all entropy streams, which a test with the real generator cannot control or repeat.",
 [S+'verifier.rs',S+'pospace.rs',T+'verifier.rs',T+'postorage.rs'],[('per-bit draw',S+'verifier.rs: create_challenges'),('set of distinct draws',T+'verifier.rs: create_challenges'),('iv draw',T+'postorage.rs: prepare_params')],
 [],['values drawn under simulated entropy and clock'])
prop('C16','Sealed data is bound to its iv and to all data before it',
 "Sealing the same original under a different iv changes every sealed block, and changing any byte of original block b changes sealed block b and every later block while leaving earlier sealed blocks as they were. Consequently blocks kept from an earlier sealing, of other data or under another iv, never stand in for the current ones: an audit that touches such a stale block fails visibly.",
 ['histories','inputs','configurations','fault_sequences'],
 "every history of re-sealing with new ivs or edited originals in which some writes of the newer sealing are lost; every dependency mode, including none",
 "No test seals twice; a sealing that ignored the iv or the chain would still round-trip and pass every existing test.",
 [T+'prover.rs',T+'verifier.rs'],[('iv into the first unit, previous block identifier into the first unit of each later block',T+'prover.rs: seal')],
 [],['sealed files of successive sealings; audit results on mixed replicas'])
prop('C17','Conversions between bits, bytes and integers are mutually inverse',
 "Bytes to bits and back, and integers to n bits and back, are inverse to each other for every value that fits; bits beyond the input are zero.",
 ['inputs'],"every byte string, bit string and integer",
 "The tests convert two fixed values.",[S+'convert.rs'],[('bit loops',S+'convert.rs')])
prop('C18','Standalone circuits accept the native output and nothing else',
 "For each standalone circuit (power, equality of the low bits, MiMC-3 and MiMC-5 delay, chained MiMC-5 and MiMC-7 hash) a proof made from a prover's inputs is accepted with exactly the output the native function gives for those inputs, and with no other, swapped or misdelivered output; an altered proof or one mixed from two sessions is rejected. A dishonest prover that chooses every internal witness value freely cannot get (x1, x2) accepted by the equality circuit unless x1 is the number formed by the low bits of x2, nor get an output of the power and MiMC circuits accepted that its own input values do not map to. The repository's native MiMC functions are the Feistel network and the key-chained hash over the given round constants.",
 ['inputs','programs','fault_sequences'],"every input, every output or proof altered or misdelivered in transit, every internal witness assignment of the prover",
 "The stable tests prove and verify a few honest instances, partly without looking at the verdict; none tries an altered output or a dishonest prover.",['proof_of_space/src/circuit/pow_circuit.rs','proof_of_space/src/circuit/equal_circuit.rs','proof_of_space/src/circuit/mimc3_df_circuit.rs','proof_of_space/src/circuit/mimc5_df_circuit.rs','proof_of_space/src/circuit/mimc5_hash_circuit.rs','proof_of_space/src/circuit/mimc7_hash_circuit.rs','proof_of_space/src/mimc/mimc_df.rs','proof_of_space/src/mimc/mimc_hash.rs'],[('R1CS constraints','proof_of_space/src/circuit/')])
prop('C19','The delay encoding is inverted exactly by its inverse',
 "For every supported prime and every non-zero value below it, applying the delay encoding t times and its inverse t times returns the value.",
 ['inputs'],"every prime preset, value and number of rounds",
 "The tests sample random values for one prime.",['proof_of_storage/src/vde/rug_sloth.rs','proof_of_storage/src/vde/rug_vde.rs'],[('square root / squaring with parity','proof_of_storage/src/vde/rug_sloth.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,sch)
print(len(P))
