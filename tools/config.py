"""Per-property configuration: what is built, how many runs, what is real and what is simulated."""
ALLREAL = ['ref/ and avx2/ KEM, PKE, polynomial, hash code for all parameter sets, compiled with the Makefiles\' flags']
NETSTUB = ['network, clocks, key storage, party crashes/restarts (simulated)', 'coins (choice tape)']
XOFWRAP = ['pqcrystals_kyber_fips202_%s_%s' % (i, f) for i in ('ref', 'avx2') for f in ('shake128_squeezeblocks', 'shake128_squeeze', 'shake128')] + ['pqcrystals_kyber_fips202x4_avx2_shake128x4_squeezeblocks', 'pqcrystals_kyber_fips202x4_avx2_shake128x4']
PRFWRAP = [w.replace('shake128', 'shake256') for w in XOFWRAP]
CONFIG = {
 'C01': dict(build=lambda b: b.libs(['ship', 'tsan']), quick=(40000, 60), thorough=(2000000, 1500),
   rule='one run = one simulated deployment (1-4 holders, 1-4 clients, random parameter sets/implementations, network and crash faults); distinct = distinct signature of the scheduling sequence',
   real=ALLREAL, stub=NETSTUB, assume=['honest-decapsulation failure (<2^-138) never occurs', 'stored keys are intact (C03 covers damaged keys)'], probes=['fault.net.drop', 'fault.net.duplicate', 'fault.net.reorder', 'fault.crash.holder', 'fault.crash.inside_call', 'fault.crash.before_sync', 'client.used_damaged_pk', 'checked.honest']),
 'C02': dict(build=lambda b: b.libs(['ship']), quick=(24000, 75), thorough=(2000000, 1500),
   rule='one run = one holder key receiving 40-160 damaged, spliced, replayed or intact ciphertexts, or every single-bit error of a 24-byte window; distinct = distinct sequence of damage kinds and implementations',
   real=ALLREAL, stub=['network damage', 'coins (choice tape)'], assume=['no damaged ciphertext happens to be an honest one (checked by content)'], probes=['checked.damaged', 'checked.honest', 'sweeps', 'checked.side_by_side']),
 'C03': dict(build=lambda b: b.libs(['ship', 'o0', 'clang3', 'clang0', 'whole', 'clangwhole']), quick=(60000, 110), thorough=(2000000, 1500),
   rule='one run = a history of key generations, encapsulations and decapsulations with transit and storage damage, every output compared with the model; distinct = distinct sequence of operations and fault kinds',
   real=ALLREAL, stub=['key storage and network damage', 'coins (choice tape)'], assume=['model of FIPS 203 (validated against the published test-vector hashes and FIPS vectors)'], probes=['build.o0', 'build.clang3', 'build.clang0', 'build.whole', 'build.clangwhole', 'dec.accepted', 'dec.rejected', 'dec.accepted_near_boundary', 'dec.accepted_at_decision_boundary']),
 **{p: dict(build=lambda b: (b.libs(['ship'], backends=('linux', 'dev', 'netbsd', 'win')), b.libs(['tsan'], Ks=(2, 3), backends=('linux', 'dev', 'netbsd', 'win'))), quick=(q, 40), thorough=(5000000, 1500),
   rule='one run = one process history: 1-3 threads making up to 6 random requests, key generations and encapsulations each on one back end, against a faulty kernel; distinct = distinct sequence of (request length, system requests, short answers, schedule)',
   real=['randombytes.c on four back ends (getrandom, /dev/urandom, NetBSD getrandom, Windows CryptoAPI), KEM key generation and encapsulation'], stub=['kernel random source, device files, CryptoAPI provider, threads, fork, process snapshots (simulated)'],
   assume=['reads from /dev/urandom never report end of file and never EAGAIN', 'no other code closes or reuses the library\'s descriptor', 'the NetBSD and Windows back ends are compiled on this host against stand-in headers'], probes=pr) for p, q, pr in [
   ('C04', 60000, ['fault.entropy.short', 'fault.entropy.eintr', 'checked.huge', 'checked.randombytes', 'backend.win', 'backend.dev', 'backend.netbsd', 'runs.long_history']),
   ('C05', 90000, ['fault.entropy.permanent', 'fault.entropy.open_fails', 'fault.entropy.provider_fails', 'fault.entropy.pool_uninitialised', 'outcome.terminated_on_permanent_failure']),
   ('C06', 40000, ['fault.fork', 'fault.rollback', 'fault.thread_killed_inside_call', 'checked.keypair', 'checked.enc']),
   ('C07', 90000, ['fault.entropy.eintr_storm', 'fault.entropy.eintr', 'fault.entropy.short', 'fault.entropy.open_eintr', 'outcome.returned_after_transient', 'runs.long_history'])]},
 **{p: dict(build=lambda b: (b.libs(['ship', 'tsan']), b.instructions(['ship_%s_%d_linux.so' % (i, k) for i in ('ref', 'avx2') for k in (2, 3, 4)])), quick=(q, 75), thorough=(5000000, 1500),
   rule=r, real=['all KEM and hash functions of both implementations, at memory-access granularity (instrumented build) and instruction granularity (breakpoints in the optimised build)'], stub=['threads, scheduler, signals, kernel random source (simulated)'],
   assume=['accesses are interleaved sequentially consistently (no weak-memory effects)', 'the instrumented and the optimised build agree where only one of them is interrupted'], probes=pr) for p, q, r, pr in [
   ('C08', 60000, 'one run = 2-5 threads making up to 4 calls each, preempted at tape-chosen accesses or instructions; distinct = distinct sequence of scheduling decisions and preemption points', ['sched.preemptions', 'args.shared_input', 'bp.hits', 'done.dec', 'done.shake256x4']),
   ('C09', 40000, 'one run = a history of up to 800 calls with related arguments, abandoned, nested, with stale machine state; distinct = distinct sequence of operations and interruption points', ['fault.nested_call', 'fault.longjmp_out_of_call', 'fault.thread_killed_inside_call', 'fault.stale_stack', 'fault.stale_registers', 'fault.fp_mode', 'args.related', 'bp.hits', 'runs.long_history', 'runs.series_of_abandoned_calls'])]},
 'C10': dict(build=lambda b: (b.libs(['ship', 'tsan']), b.instructions(['ship_%s_%d_linux.so' % (i, k) for i in ('ref', 'avx2') for k in (2, 3, 4)])), quick=(40000, 45), thorough=(5000000, 1500),
   rule='one run = 1-3 threads making up to 6 calls each with tape-chosen argument placements while a neighbour thread changes the memory around them; distinct = distinct sequence of operations, placements and schedule',
   real=['all KEM and hash functions of both implementations (instrumented build: every access checked; optimised build: page protection)'], stub=['memory layout, threads, neighbour, kernel random source (simulated)'],
   assume=['reads from a call\'s own output buffers are allowed', 'in the optimised build, a stray read that stays within the argument\'s own pages is only seen in the instrumented build'], probes=['layout.packed', 'layout.read_only_input', 'layout.ends_at_unmapped_page', 'layout.starts_after_unmapped_page', 'layout.unaligned', 'layout.shared_input', 'neighbour.writes', 'sched.preemptions', 'checked.accesses']),
 **{p: dict(build=lambda b, i=im: b.libs(['ship', 'tsan'], impls=i), quick=(q, 150), thorough=(5000000, 1500),
   rule='one run = 1-3 threads driving up to 6 interleaved hash sessions and one-shot calls with tape-chosen fragmentation, copies, checkpoints, rollbacks and process restarts; distinct = distinct sequence of calls and sessions',
   real=[r], stub=['callers, thread scheduler, checkpoint storage, process restarts (simulated)'],
   assume=['block-wise squeezing is only used at a block boundary, as its documentation demands', 'inputs beyond 4 GiB consist of zeros followed by a tape-chosen tail'], probes=pr) for p, im, q, r, pr in [
   ('C11', ('ref', 'avx2'), 40000, 'fips202.c of both implementations (instrumented and optimised build)', ['piece.empty', 'piece.ends_at_block_boundary', 'request.empty', 'request.ends_at_block_boundary', 'mix.blocks_after_bytes_or_blocks', 'fault.state_copied_in_mid_stream', 'fault.session_rolled_back', 'fault.crash_restart', 'sched.preemptions', 'huge.input', 'huge.output']),
   ('C12', ('avx2',), 30000, 'fips202x4.c and the vectorised permutation (instrumented and optimised build)', ['request.empty', 'layout.one_shared_input', 'layout.overlapping_inputs', 'layout.outputs_over_inputs', 'fault.state_copied_in_mid_stream', 'fault.session_rolled_back', 'fault.crash_restart', 'sched.preemptions', 'huge.input', 'huge.output'])]},
 'C15': dict(build=lambda b: b.rig(Ks=()), quick=(20000, 100), thorough=(5000000, 1500),
   rule='one run = a history of up to 65 requests (one run in 80: up to 40000) to 1-4 seed expanders and the DRBG with cipher-library failures, restarts, copies and rollbacks; distinct = distinct sequence of calls and fault points',
   real=['nistkat/rng.c', 'the AES of the system cipher library (OpenSSL libcrypto)'], stub=['failures of the cipher library, process restarts, generator-state storage (simulated)'],
   assume=['DRBG requests stay within the limit of its specification (2^19 bits)', 'a request of exactly the remaining length may be refused or served'], probes=['fault.cipher.ctx_new', 'fault.cipher.init', 'fault.cipher.update', 'fault.process_restart', 'fault.expander_copied', 'fault.expander_rolled_back', 'refused.beyond_limit', 'refused.null', 'refused.maxlen', 'drbg.counter_near_carry', 'expander.carry_stream', 'expander.long_requests', 'expander.marathons', 'drbg.marathons']),
 'C16': dict(build=lambda b: b.rig(drbg=False), quick=(5000, 120), thorough=(2000000, 1500),
   rule='one run = up to three executions of the KAT generator on one simulated disk with 0-3 disk faults, kills or cipher failures each; distinct = distinct sequence of faults and positions',
   real=['nistkat/PQCgenKAT_kem.c (whole main program), nistkat/rng.c, ref/ KEM, all parameter sets', 'stdio buffering of the C library', 'the AES of the system cipher library'], stub=['disk and file system below stdio, cipher-library failures, process kills (simulated)'],
   assume=['the disk does not lose writes it has acknowledged, close() included'], probes=['fault.disk.write_enospc', 'fault.disk.write_eio_once', 'fault.disk.write_short', 'fault.disk.write_torn_enospc', 'fault.disk.read_eio', 'fault.disk.read_eio_once', 'fault.disk.read_short', 'fault.disk.file_truncated_while_reading', 'fault.disk.read_damaged_seed_digit', 'fault.disk.read_changed_seed_digit', 'fault.disk.read_damaged_seed_marker', 'fault.disk.close_fails_and_loses_data', 'fault.disk.open_for_reading_fails', 'fault.disk.open_for_writing_fails', 'fault.killed_at_disk_operation', 'fault.cipher.update', 'outcome.success', 'outcome.failure_reported', 'runs.recovered_without_faults']),
 'C13': dict(build=lambda b: b.shared(), quick=(24000, 100), thorough=(2000000, 1500),
   rule='one run = a process history of up to 22 loads, unloads and reloads of the shared libraries, programs linked against them and a statically linked program, while up to 3 threads use them; distinct = distinct sequence of load steps',
   real=['all shared libraries of both Makefiles (optimised and instrumented)', 'the dynamic loader and linker', 'published headers'], stub=['application (order, visibility, binding mode, threads, random source)'],
   assume=['a KEM library is only called while its hash libraries are loaded with global visibility', 'no library is unloaded while a call into it is in progress'], probes=['mode.global', 'mode.local', 'mode.lazy', 'mode.deepbind', 'fault.unload', 'fault.unload_everything', 'fault.load_before_dependency_lazy', 'second_copy_of_a_library', 'form.static_program', 'form.linked_program', 'lookup.global', 'checked.header_sizes', 'checked.exported_symbols', 'application_entropy_calls', 'uses.kem_in_other_thread', 'fault.thread_outlives_libraries', 'sched.preemptions']),
 'C14': dict(build=lambda b: b.trace_libs(), quick=(30000, 75), thorough=(2000000, 1500),
   rule='one run = a holder with 1-5 secret keys under one matrix answering 2-21 honest, damaged, spliced, replayed or made-up requests of 1-3 peers, with encapsulations and key generations in between; distinct = distinct sequence of ciphertexts',
   real=['ref/ and avx2/ KEM code of all parameter sets: the assembly output of gcc and clang (unoptimised, for size, optimised, as one program) with trace recording inserted'], stub=['network, peers, clock (advances by the trace), key storage (simulated)', 'first half of the first hash output in key generation (fixed public matrix seed)'],
   assume=['the instruction sequence of the traced build is that of the shipped build', 'x87 operands and floating-point operands taken from memory are not in the trace', 'functions of the C library other than mem*/str* comparisons and copies are not traced'], probes=['checked.dec', 'checked.enc', 'checked.keygen', 'requests.honest', 'requests.dishonest', 'fault.damage.one_bit', 'fault.net.replay', 'fault.stale_stack', 'fault.storage.damaged_secret_key', 'build.trace.ref', 'build.trace.avx2', 'build.traceo0.ref', 'build.traceclangs.ref', 'build.traceclang1.avx2', 'build.traceclang3.ref', 'build.tracewhole.ref', 'build.traceclangwhole2.ref']),
 'C18': dict(build=lambda b: b.libs(['ship'], backends=('linux', 'dev', 'netbsd', 'win')), quick=(60000, 45), thorough=(5000000, 1500),
   rule='one run = 1-2 threads making 3-12 calls each while memory, random source, files, clocks, environment variables and other system services fail or turn hostile around them; distinct = distinct sequence of operations and surroundings',
   real=['ref/ and avx2/ KEM and hash code of all parameter sets, four randombytes back ends (optimised build)'], stub=['memory allocation, kernel random source, files, clocks, environment variables, system configuration queries, stack size (simulated)'],
   assume=['system services are requested through the C library', 'code of the C library itself (string functions) needs no memory'], probes=['fault.env.no_memory', 'fault.env.entropy_unavailable', 'fault.env.no_files', 'fault.env.clock_jumps', 'fault.env.hostile_variables', 'fault.small_stack', 'done.keypair_derand', 'done.enc_derand', 'done.dec', 'runs.long_inputs']),
 'C17': dict(build=lambda b: b.libs(['ship'], extra_wrap=XOFWRAP + PRFWRAP, tag='xof'), quick=(10000, 100), thorough=(5000000, 1500),
   rule='one run = 1-3 threads making 1-3 key generations, encapsulations and decapsulations each on simulated matrix streams (rejection storms, block-boundary ends, different needs per lane); distinct = distinct sequence of stream kinds, needs and operations',
   real=['ref/ and avx2/ KEM, matrix expansion and rejection sampling (scalar and vectorised), Keccak state handling of all parameter sets'], stub=['content of the SHAKE128 matrix streams (replaced block by block where the code obtains it)', 'threads suspended or killed at stream requests (simulated)'],
   assume=['the matrix streams are obtained through the squeeze functions of the hash library'], probes=['requests.blocks_delivered', 'fault.rejection_storm', 'need.more_than_first_request', 'boundary.need_ends_at_block_end', 'lanes.different_needs', 'fault.thread_killed_in_expansion', 'sched.suspended_at_stream_request', 'stream.group_masks']),
 'C20': dict(build=lambda b: b.libs(['asan'], extra_wrap=XOFWRAP + PRFWRAP), quick=(30000, 75), thorough=(5000000, 1500),
   rule='one run = 1-3 threads making 1-7 calls each of every entry point, on simulated matrix and noise streams, with threads suspended and killed inside calls and a faulty random source; distinct = distinct sequence of stream styles and operations',
   real=['ref/ and avx2/ KEM, hash code and randombytes of all parameter sets: compiled with address and bounds instrumentation, assembly sources with a check before every memory operand'], stub=['content of the SHAKE128 matrix streams and SHAKE256 noise streams', 'threads, kernel random source (simulated)'],
   assume=['gather instructions and uninitialised reads are not checked', 'the instrumented build makes the accesses of the shipped build'], probes=['fault.rejection_storm', 'fault.noise_stream', 'fault.thread_killed_in_expansion', 'fault.entropy.short', 'fault.public_key_extreme', 'fault.secret_key_extreme', 'fault.ciphertext_extreme', 'done.shake256x4', 'done.randombytes', 'done.dec']),
 'C19': dict(build=lambda b: b.libs(['ship'], extra_wrap=XOFWRAP + PRFWRAP, tag='xof'), quick=(40000, 75), thorough=(5000000, 1500),
   rule='one run = 1-2 threads making 2-7 key generations, encapsulations and decapsulations each, on simulated matrix and noise streams holding extreme values; distinct = distinct sequence of stream styles and operations',
   real=['ref/ and avx2/ KEM, sampling and all polynomial arithmetic (C and assembly) of all parameter sets'], stub=['content of the SHAKE128 matrix streams and SHAKE256 noise streams (replaced where the code obtains them)', 'stored keys and ciphertexts with extreme coefficients'],
   assume=['the streams are obtained through the hash library; results of calls that obtain one in another way are not judged'], probes=['noise.all_plus', 'noise.all_minus', 'noise.walsh', 'noise.single', 'fault.public_key_extreme', 'fault.secret_key_extreme', 'fault.ciphertext_extreme', 'checked.outputs']),
}
NA = {
 'N01': 'A cryptographic hardness assumption: no execution, schedule or fault sequence decides it.',
 'N02': 'A probability bound over key and message choice far below anything sampling can reach; it depends on the scheme\'s distributions, not on scheduling, time, I/O or faults.',
 'N03': 'A purely functional fact about all inputs of leaf functions: no concurrency, time, I/O or multi-party behaviour for a simulator to control (C19 drives the arithmetic through whole operations with simulated streams).',
 'N04': 'Needs the physical processor: caches, ports and speculation are not behind any seam the simulator controls (C14 covers the architectural trace).',
}
