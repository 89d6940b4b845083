import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
KEM=["ref/kem.c","ref/indcpa.c","avx2/indcpa.c","ref/poly.c","avx2/poly.c","ref/polyvec.c","avx2/polyvec.c","ref/verify.c","avx2/verify.c"]
p("C01","Key agreement survives an unreliable network and restarts",
 "Whenever an honest ciphertext reaches, unaltered, the holder of the matching key pair whose stored key is intact, decapsulation succeeds and yields exactly the shared secret the sender obtained, no matter how many other parties, keys, parameter sets and sessions are active, which of the two implementations each side runs, and how messages were delayed, duplicated, reordered or retried or how often the parties crashed and restarted. Secrets of different sessions never mix, and once faults stop every pending session completes.",
 ["schedules","fault_sequences","inputs","configurations"],
 "all seeds and messages (including low-entropy ones), all pairings of ref/avx2 per parameter set, all delivery orders, duplications, losses, crashes and restarts of the parties",
 "test_kyber runs one keypair/enc/dec triple at a time, in order, in one implementation, with random coins; nothing interleaves sessions, mixes implementations, restarts a holder from storage or uses structured coins.",
 KEM,[("encapsulation/decapsulation","ref/kem.c crypto_kem_enc_derand, crypto_kem_dec"),("CPA-PKE","ref/indcpa.c, avx2/indcpa.c")],
 ["return values and shared secrets of keypair_derand/enc_derand/dec of all six libraries"])
p("C02","Damaged or forged ciphertexts are implicitly rejected",
 "For every ciphertext that is not an honest encapsulation to the holder's key - any corruption pattern of an honest one, a truncated-and-padded, spliced, misdirected or made-up one - decapsulation still reports success and outputs the rejection secret, a pseudorandom value that is a fixed function of the holder's rejection seed and of every bit of the received ciphertext. That value never equals the secret of the honest session, is the same on every retry and in both implementations, and nothing else distinguishes rejection from acceptance.",
 ["inputs","fault_sequences","histories"],
 "all corruption patterns a network can apply (single bits at every position, bursts, compensating changes, swaps, splices, replays to another key) and all made-up ciphertexts, for every key",
 "test_kyber changes one random byte of 1000 ciphertexts and only checks that the secrets differ; test_vectors uses uniformly random ciphertexts. Structured multi-position damage is never delivered and the rejection value after damage is never checked.",
 ["ref/kem.c","ref/verify.c","avx2/verify.c","ref/symmetric-shake.c"],
 [("re-encryption check","ref/kem.c crypto_kem_dec"),("constant-time compare and conditional move","ref/verify.c, avx2/verify.c"),("rejection PRF","ref/symmetric-shake.c kyber_shake256_rkprf")],
 ["return value and output of dec"],None,[("z","rejection seed, last 32 bytes of the secret key","ref/kem.c")])
p("C03","Both implementations compute the specified scheme, even on damaged keys",
 "For every coin string, public key, ciphertext and secret key - including ones damaged in transit or in storage: non-canonical coefficients, torn mixes of two keys, stuck bits, excessive noise - key generation, encapsulation and decapsulation output byte for byte what the scheme (Kyber as in FIPS 203, coefficients taken mod q) prescribes, so the portable and the AVX2 implementation always agree.",
 ["inputs","fault_sequences","configurations"],
 "all byte strings for coins, pk, ct and sk reachable by transit and storage faults, three parameter sets, two implementations",
 "The test vectors fix 10000 honest executions; damaged public or secret keys appear only in one test that checks inequality. Accept/reject decisions near the decoding boundary are invisible there, because honest noise stays far from it.",
 KEM+["ref/ntt.c","ref/reduce.c","ref/cbd.c","avx2/cbd.c","avx2/rejsample.c","avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/fq.S","avx2/shuffle.S","avx2/consts.c"],
 [("serialisation","poly_tobytes/frombytes, compress/decompress in ref/ and avx2/"),("polynomial arithmetic","ref/ntt.c, avx2/*.S"),("sampling","ref/cbd.c, gen_matrix in indcpa.c")],
 ["all outputs of keypair_derand/enc_derand/dec"])
p("C04","The system random source is delivered completely and exactly",
 "When a request for random bytes returns, the whole requested buffer, of any length, consists of bytes the operating system supplied during that request, each used once and in order, and nothing outside the buffer is written - however the system fragments its answers into short counts, interruptions and chunks, on each of the platform back ends (getrandom on Linux, getrandom on NetBSD, /dev/urandom, Windows CryptoAPI).",
 ["fault_sequences","inputs","schedules","configurations"],
 "all request lengths, all sequences of short counts, interruptions and successes, all four platform back ends, concurrent callers",
 "The tests run against a healthy kernel, which never shortens or interrupts a 32- or 64-byte request, and compile only the Linux back end; every loop in the code runs exactly once.",
 ["ref/randombytes.c","ref/kem.c"],[("retry loops","ref/randombytes.c randombytes")],["buffer after randombytes; pk/sk/ct/ss after keypair/enc"])
p("C05","Without enough system entropy nothing is ever returned",
 "If the operating system's random source fails permanently before a request has been filled - error code, unavailable or unopenable device, failed provider call, at the first or any later fragment - the requesting call terminates the process and never returns to its caller. No key pair, ciphertext or shared secret made from missing, stale or predictable bytes is ever returned.",
 ["fault_sequences","crash_points","configurations"],
 "every error the random source can report at every fragment of every request, on each platform back end, directly and through keypair/enc",
 "The kernel in the test environment never fails a random request, so no error path is ever executed.",
 ["ref/randombytes.c","ref/kem.c"],[("abort on error","ref/randombytes.c randombytes")],["whether randombytes/keypair/enc return after an injected permanent failure"])
p("C06","Every randomised call uses only entropy fetched for that call",
 "The result of each key generation and encapsulation is determined by bytes the operating system supplied to that very call (and the public key). No entropy is reused, carried over or shared across calls, threads, failed attempts, forked processes, or restored snapshots of the process.",
 ["histories","schedules","fault_sequences"],
 "all histories of calls, failures, forks, snapshot/rollbacks and concurrent callers",
 "The tests call sequentially in one process that is never forked or rolled back, and cannot see where the random bytes came from.",
 ["ref/randombytes.c","ref/kem.c"],[("no user-space pool","ref/randombytes.c"),("coins drawn on the stack per call","ref/kem.c crypto_kem_keypair, crypto_kem_enc")],["outputs of keypair/enc against the bytes the simulated OS handed to that call"])
p("C07","Transient entropy interruptions are harmless and requests progress",
 "Interruptions and short answers of the random source, however many and in whatever order, never make a request fail, terminate the process or busy-loop without asking again. Once interruptions stop, the request completes within a number of system requests bounded by its length.",
 ["fault_sequences","schedules"],
 "all finite sequences of interruptions, short answers and delays (including before the kernel pool is initialised), stale error codes from earlier calls, all four back ends",
 "No signal interrupts a random request in the tests; the retry branches are never taken.",
 ["ref/randombytes.c"],[("EINTR handling and remaining-length accounting","ref/randombytes.c")],["system requests issued by randombytes and its outcome"])
p("C08","Concurrent callers get the same results as if they ran alone",
 "The library keeps no hidden shared mutable state: for any number of threads calling any mix of its functions on their own buffers (shared inputs being read only), under every interleaving, each call returns exactly what it would have returned alone.",
 ["schedules"],
 "all interleavings of up to several concurrent API calls, including hash functions and the random source, at memory-access and instruction granularity",
 "All tests are single-threaded.",
 KEM+["ref/fips202.c","avx2/fips202x4.c","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c","ref/randombytes.c"],
 [("all working state on the caller's stack","whole code base")],["outputs of all API calls under a controlled scheduler"])
p("C09","Abandoned, nested or preceding calls leave no trace",
 "A call's result depends only on its argument bytes: earlier calls with related arguments, calls abandoned half-way (thread killed, longjmp out of a signal handler), calls nested in a signal handler that interrupted another call, leftover stack or register contents, floating-point modes and stale error codes change nothing, neither for that call nor for the interrupted one.",
 ["histories","crash_points","schedules"],
 "all histories of API calls, abandonment and interruption at every point, all leftover machine state",
 "Tests never abandon or nest calls, always start from a similar stack, and never repeat a call with related arguments in another order.",
 KEM+["ref/fips202.c","avx2/fips202x4.c"],[("no caching, every local initialised before use","whole code base")],["outputs of all API calls after arbitrary history"])
p("C10","Calls touch exactly the buffers they were given",
 "Every call reads only its declared input buffers and writes exactly its declared output buffers, whatever their alignment and placement: adjacent memory may be unmapped, or belong to another thread that is using it at that moment, and inputs may be read-only. Inputs are never modified, not even temporarily, and every declared output byte is written.",
 ["configurations","schedules"],
 "all alignments and placements of all argument buffers (before/after unmapped pages, packed against other threads' live data, read-only inputs), all interleavings with the neighbours' owners",
 "Tests place buffers as stack arrays with slack around them in one thread; valgrind does not see overruns inside the stack frame.",
 KEM+["ref/fips202.c","avx2/fips202x4.c","ref/kem.h","ref/params.h","ref/api.h","avx2/api.h"],[("fixed sizes","ref/params.h"),("unaligned loads/stores and overlapping stores in the vector code","avx2/poly.c, avx2/polyvec.c, avx2/shuffle.S")],["memory around and in all argument buffers"])
p("C11","Incremental hashing does not depend on how the stream is fragmented",
 "For SHAKE128 and SHAKE256 absorbed and squeezed incrementally, any split of the input into pieces and of the output into requests - empty pieces, pieces ending exactly at block boundaries, one byte at a time, block-wise or mixed - with any number of sessions interleaved and with session states copied, saved and restored in mid-stream, yields the same bytes as the FIPS 202 function of the whole input. The one-shot functions (SHAKE128, SHAKE256, SHA3-256, SHA3-512) agree for every input and output length.",
 ["histories","inputs","schedules"],
 "all stream lengths and fragmentations, all interleavings of sessions, checkpoints and restores at every point",
 "The KEM uses a handful of fixed lengths; the incremental functions are hardly exercised and no test compares fragmentations.",
 ["ref/fips202.c","ref/fips202.h","avx2/fips202.h"],[("position bookkeeping","ref/fips202.c keccak_absorb, keccak_squeeze, keccak_squeezeblocks")],["bytes squeezed"],None,[("keccak_state.pos","bytes absorbed/squeezed in current block","ref/fips202.h")])
p("C12","The four parallel hash lanes are independent and equal to scalar hashing",
 "The 4-way SHAKE128/SHAKE256 functions produce in each lane exactly the FIPS 202 output for that lane's input, for every input and output length and every split of the output into block requests, independent of what the other three lanes carry and of the placement or sharing of their buffers.",
 ["inputs","histories","configurations"],
 "all lane contents, lengths and block-request splits; lanes sharing one input; lanes ending at page boundaries; interleaved batches",
 "Only 33- and 34-byte inputs with fixed block counts are ever used, always with closely related lane contents.",
 ["avx2/fips202x4.c","avx2/fips202x4.h","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c","avx2/keccak4x/KeccakP-1600-unrolling.macros"],[("lane gather/scatter and padding","avx2/fips202x4.c"),("vectorised permutation","avx2/keccak4x")],["bytes squeezed per lane"])
p("C13","All libraries coexist in one program in any load order",
 "All shared libraries (three parameter sets of both implementations and their hash libraries) can be loaded or linked into one program simultaneously, in any order and visibility, unloaded and reloaded, and used concurrently: each keeps computing its own parameter set. Every symbol they export lies in its own namespace, and sizes and prototypes published in the API headers match what the libraries do.",
 ["configurations","schedules","histories"],
 "all load orders, binding modes and scopes, reload histories, and interleaved use",
 "Each test program statically contains a single implementation and parameter set; the shared libraries are built but never loaded by any test.",
 ["ref/Makefile","avx2/Makefile","ref/params.h","avx2/params.h","ref/fips202.h","avx2/fips202.h","ref/api.h","avx2/api.h"],[("symbol namespacing","params.h KYBER_NAMESPACE, fips202.h FIPS202_NAMESPACE")],["results of API calls through dlopen'ed libraries; dynamic symbol tables"])
p("C14","Response time of decapsulation reveals nothing about secrets",
 "Seen by a network peer, the time (simulated clock: the exact sequence of executed instructions, accessed memory addresses and operands of variable-latency instructions such as division) a holder takes to decapsulate does not depend on whether the ciphertext was honest or damaged, where it was damaged, nor on the decrypted message or the secret parts of the key (only the public matrix seed may matter). Likewise encapsulation time does not depend on the secret message for a given public key, nor key generation time on anything but the public matrix seed - in the code as shipped, and as gcc or clang build it unoptimised, for size, or as one program (link-time optimisation).",
 ["inputs","fault_sequences"],
 "all ciphertexts delivered to one key (honest, damaged at any place, replayed), all secret vectors and rejection seeds under one matrix seed, all messages under one public key, all coins leading to one matrix seed",
 "test_speed reports medians of wall-clock cycles; nothing compares executions.",
 ["ref/kem.c","ref/verify.c","avx2/verify.c","ref/poly.c","avx2/poly.c","ref/polyvec.c","ref/cbd.c","ref/indcpa.c","ref/reduce.c","ref/ntt.c"],[("constant-time compare, conditional move, division-free rounding","verify.c, poly.c, polyvec.c")],["instruction and address trace of dec/enc"])
p("C15","Deterministic generators of the KAT rig deliver exact streams or stop",
 "The seed expander yields one fixed byte stream per seed, diversifier and length limit however requests are fragmented, refuses requests beyond its limit without delivering or consuming anything, and the AES-256 CTR-DRBG follows its specification over any request history. If the cipher library fails (allocation failure or cipher error) at any point the process terminates instead of returning wrong bytes.",
 ["histories","fault_sequences","inputs"],
 "all request histories, all limits, cipher/allocation failures at any call",
 "The KAT program uses only fixed 48/32/64-byte DRBG requests, never the seed expander, and no cipher call fails.",
 ["ref/nistkat/rng.c","ref/nistkat/rng.h"],[("buffering","ref/nistkat/rng.c seedexpander"),("error handling","ref/nistkat/rng.c AES256_ECB/handleErrors")],["bytes and return codes of seedexpander/randombytes"])
p("C16","A KAT run that reports success has written complete, correct files",
 "When the known-answer-test generator exits with success, its request file holds all requests and its response file holds, for every request read back, exactly the values the scheme prescribes for that seed. If any operation on its files fails - a file cannot be opened, reading or writing fails or stops short, the disk is full, a request's seed is missing - it reports failure or terminates.",
 ["fault_sequences","crash_points"],
 "all single and repeated I/O faults at every file operation of the generator, all request files read back",
 "The KAT program is only run on a healthy disk and its files are not compared with anything.",
 ["ref/nistkat/PQCgenKAT_kem.c"],[("return codes","ref/nistkat/PQCgenKAT_kem.c main")],["exit status and contents of PQCkemKAT_*.req/.rsp on the simulated disk"])
p("C17","Matrix expansion consumes its random stream exactly, whatever is rejected",
 "Expansion of the public seed takes from each seed-and-index stream the first 256 acceptable 12-bit candidates in order, no matter how many candidates are rejected, where block boundaries fall, or how the needs of streams processed together differ; both implementations fetch as many further blocks as needed, never skip, repeat or overrun.",
 ["inputs","fault_sequences","schedules"],
 "all XOF output streams, including rejection storms that honest streams show with negligible probability and all acceptance counts at block ends",
 "With real streams at most one extra block is ever needed (seen in about 1% of polynomials); longer storms and boundary coincidences never occur in any feasible number of test vectors.",
 ["ref/indcpa.c","avx2/indcpa.c","avx2/rejsample.c"],[("rejection loops","gen_matrix, rej_uniform, rej_uniform_avx")],["ciphertexts/public keys computed when the XOF is a simulated source"])
p("C18","Operations given their randomness need nothing from their surroundings",
 "Key generation and encapsulation from given coins, decapsulation and all hash functions depend on their arguments alone: while memory allocation fails, the random source is unavailable or would block, files cannot be opened, clocks jump, environment variables are hostile or other system services are refused, each call still returns normally, without waiting, with the specified result, on a stack of 128 KiB. The randomised operations need only random bytes.",
 ["fault_sequences","configurations","histories"],
 "all failure patterns of all system services at every request, all environment settings, small thread stacks, all arguments",
 "Tests run on a healthy machine with memory, entropy, descriptors and an 8 MiB stack; nothing ever fails around a call.",
 KEM+["ref/fips202.c","avx2/fips202x4.c"],[("fixed-size stack buffers, no allocation","ref/indcpa.c, avx2/indcpa.c"),("entropy only in keypair/enc","ref/kem.c")],["return values and outputs of all calls while system services fail"])
p("C19","Results are exact for every matrix, secret, noise and key value",
 "Whatever values the pseudorandom streams of an operation happen to take - any matrix of coefficients below q, any secret, error and mask polynomials with coefficients the centred binomial distribution allows, however improbable, such as all extreme values or aligned signs - and whatever 12-bit coefficients stored or received keys hold, key generation, encapsulation and decapsulation in both implementations output exactly what the scheme prescribes: no intermediate value ever overflows or is left unreduced, and both sampling and arithmetic are exact for every value.",
 ["inputs","fault_sequences","schedules"],
 "all outputs of the matrix XOF and of the noise PRF, all key and ciphertext coefficients",
 "Honest streams practically never produce extreme or aligned values, so an overflow or missing reduction that needs them never shows, however many test vectors are run; the streams cannot be chosen through the API.",
 KEM+["ref/ntt.c","ref/reduce.c","ref/cbd.c","avx2/cbd.c","avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/fq.S"],[("lazy reductions","ref/ntt.c, ref/poly.c, avx2/*.S"),("centred binomial sampling","ref/cbd.c, avx2/cbd.c, poly_getnoise_*")],["keys, ciphertexts and secrets computed when XOF and PRF are simulated sources"])
p("C20","Calls never leave their objects, whatever streams, keys and faults do",
 "During every call of every entry point, each memory access lies inside an object that exists at that moment - the arguments of that call (with exactly the documented lengths), the call's own live local variables, the library's globals - and no array is indexed out of bounds, nothing is divided by zero and no shift exceeds its type: for every matrix and noise stream (including rejection storms and extreme values), every key and ciphertext content, every input and output length, every pattern of short or interrupted random reads, and after calls that were abandoned or whose arguments have since been released.",
 ["inputs","fault_sequences","histories","schedules"],
 "all XOF and PRF outputs, all key, ciphertext and message contents and lengths, all patterns of random-source faults",
 "A read or write just outside an object usually changes no result: tests pass, and the access appears only for particular streams (an extra block, a full coefficient array) or lengths.",
 KEM+["ref/fips202.c","avx2/fips202x4.c","avx2/rejsample.c","avx2/cbd.c","avx2/shuffle.S","ref/randombytes.c"],[("fixed-size buffers with slack for vector loads","avx2/cbd.c, avx2/polyvec.c, avx2/rejsample.c"),("sampling loop bounds","rej_uniform, rej_uniform_avx")],["memory touched by each call"])
# not applicable
p("N01","IND-CCA2 security of the scheme",
 "No efficient adversary distinguishes encapsulated secrets from random ones, even with a decapsulation oracle.",["inputs"],"all efficient adversaries","A computational-hardness statement; tests cannot address it.",KEM,[("Fujisaki-Okamoto transform","ref/kem.c")],[])
p("N02","Decapsulation failure probability of honest runs is negligible",
 "Over the random choice of keys and messages, honest decapsulation fails with probability at most 2^-139 (Kyber512), 2^-164 (Kyber768), 2^-174 (Kyber1024).",["inputs"],"the distribution of all keys and messages","The probability is far below anything sampling can observe.",["ref/params.h","ref/cbd.c"],[("noise parameters","ref/params.h")],[])
p("N03","Internal polynomial arithmetic is exact for all in-range inputs",
 "For every polynomial within the documented coefficient ranges, NTT, inverse NTT, base multiplication, Montgomery and Barrett reduction, and the vectorised counterparts return representatives congruent to the mathematical result without overflow.",["inputs"],"all coefficient vectors in the documented ranges","Tests sample honest polynomials only.",["ref/ntt.c","ref/reduce.c","avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/fq.S"],[("lazy reduction bounds","ref/ntt.c, avx2/*.S")],[])
p("N04","No micro-architectural leakage",
 "On real processors no cache, port-contention, speculation or power side channel reveals secret-dependent behaviour.",["inputs","schedules"],"all executions on real processors","Needs hardware observation.",["ref/verify.c","avx2/verify.c"],[("constant-time coding style","whole code base")],[])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,S); assert len(d['title'])<=80,d['id']; print(d['id'], d['statement'].count('. ')+1)
