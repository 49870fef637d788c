#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

H = "hybrid-dilithium-sphincs/hybrid.c"
prop("C01", "Full (break-glass) signatures round-trip for every key and message",
 "For every key pair the library generates and every message of 1 to 64 bytes, full-mode signing succeeds and reports a length of 52342 plus the message length. Opening that signature with the matching public key succeeds and returns exactly the signed message and its length, and verifying it against that message succeeds.",
 ["inputs"], "all key pairs (all 160-byte seeds and all randomly generated keys), all messages of 1..64 bytes, all values of the signing randomness",
 "The suite signs only 32-byte messages, never opens or verifies a full hybrid signature in the stable tests, and uses a handful of keys; message length 1..64, message content, key and randomiser are universally quantified.",
 [H, "sphincs/sign.c", "dilithium2/sign.c", "tweetnacl/tweetnacl.c"],
 [("full sign / open / verify", H + ": crypto_sign_dilithium_ed25519_sphincs*, crypto_verify_dilithium_ed25519_sphincs")],
 ["return codes, message and length outputs of sign/open/verify"])
prop("C02", "Compact signatures round-trip for every key and message",
 "For every key pair the library generates and every message of 1 to 64 bytes, compact-mode signing succeeds and reports a length of 2526 plus the message length. Opening that signature with the matching public key succeeds and returns exactly the signed message and its length, and verifying it against that message succeeds.",
 ["inputs"], "all key pairs, all messages of 1..64 bytes, all 40-byte nonces",
 "The compact tests always sign 32 random bytes; other lengths, degenerate contents and degenerate nonces are never sampled.",
 [H, "dilithium2/sign.c", "tweetnacl/tweetnacl.c", "common/fips202.c"],
 [("compact sign / open / verify", H + ": crypto_sign_compact_*, crypto_verify_compact_*")],
 ["return codes, message and length outputs"])
prop("C03", "A full signature is accepted only if all three component signatures are",
 "A full-mode signature is accepted if and only if it is well formed and its Ed25519, Dilithium and SPHINCS+ parts are each, on their own, valid signatures of the carried message under the corresponding part of the public key. A signature in which any one part is invalid, or was made for another message or another key, is rejected even when the other two parts are valid, so the scheme stays unforgeable while any one component is unbroken.",
 ["inputs"], "all keys, messages and combinations of valid/invalid/transplanted component signatures, including keys whose parts come from different seeds",
 "The stable tests never tamper with a full hybrid signature; dropping one of the three component checks, or checking it against the wrong message or key part, passes the whole suite.",
 [H, "sphincs/sign.c", "dilithium2/sign.c", "tweetnacl/tweetnacl.c"],
 [("sequential component verification", H + ": crypto_sign_dilithium_ed25519_sphincs_open")],
 ["accept/reject of open and verify versus the conjunction of three reference verdicts"])
prop("C04", "A compact signature is accepted only if both parts sign the bound digest",
 "A compact-mode signature is accepted if and only if it is well formed and its Ed25519 and Dilithium parts are each valid, under the corresponding part of the public key, for the SHA3-512 hash of the carried 40-byte nonce, the carried message and the SPHINCS+ part of the public key. Changing the nonce, the message or the SPHINCS+ key, or supplying only one valid part, always leads to rejection.",
 ["inputs"], "all keys, nonces, messages and combinations of component signatures, including component signatures over other digests (raw message, missing nonce, other SPHINCS+ key)",
 "Tests flip a few bytes of one honest signature; a verifier that ignores the nonce or the SPHINCS+ key, hashes a truncated input, or skips one component for some inputs passes them.",
 [H, "dilithium2/sign.c", "tweetnacl/tweetnacl.c", "common/fips202.c"],
 [("digest binding and two component verifications", H + ": crypto_sign_compact_dilithium_ed25519_sphincs_open")],
 ["accept/reject versus reference verdict"])
prop("C05", "Any alteration of a signature, message or public key is rejected",
 "Take any valid signature, full or compact: changing any bit of the signature, of the message it is checked against, or of the public key, or truncating or extending the signature, makes opening and verification fail. In particular nobody without the secret key can turn one accepted signature into a different accepted byte string for the same message.",
 ["inputs"], "all honest signatures and all alterations (single bits at every offset, byte substitutions, block swaps, length changes, algebraic rewrites such as adding the group order to the Ed25519 scalar)",
 "Tests try a few fixed byte flips on compact signatures and none on full ones; offsets, multi-byte and algebraic alterations are unbounded.",
 [H, "tweetnacl/tweetnacl.c", "dilithium2/packing.c", "dilithium2/sign.c", "sphincs/sign.c"],
 [("exact-length and id checks", H + ": *_open"), ("canonical encodings", "dilithium2/packing.c: unpack_sig hint rules; tweetnacl/tweetnacl.c: crypto_sign_open"), ("strong unforgeability of components", "dilithium2, sphincs")],
 ["accept/reject of open and verify"])
prop("C06", "Signatures and keys follow the documented byte layout and interoperate",
 "Every produced full or compact signature has exactly the documented field order, identifiers and lengths, and its component fields are byte-for-byte what an independent implementation of Ed25519, Dilithium2 and SPHINCS+-SHAKE-256f-simple produces from the same secret key, message and random bytes. Conversely, signatures produced by an independent implementation in the documented layout are accepted.",
 ["inputs"], "all keys, messages 1..64 bytes, nonces and randomisers, in both directions (library signs / reference signs)",
 "A layout or derivation change made consistently in signing and opening is invisible to round-trip tests, and the suite holds no known-answer signatures.",
 [H, "common/hybrid-common.c", "hybrid-pqc-dsa-layout.png"],
 [("layout comment and copy loops", H)],
 ["signature bytes"])
prop("C07", "Seeded key generation is a fixed function of all 160 seed bytes",
 "Generating a key pair from a 160-byte seed always yields the same key pair: the Ed25519, Dilithium and SPHINCS+ key pairs derived by their standard algorithms from seed bytes 0-31, 32-63 and 64-159 respectively, laid out as documented. Every seed byte matters, each third of the seed influences only its own component, and the public parts embedded in the secret key equal those in the public key.",
 ["inputs"], "all 160-byte seeds",
 "One known-answer seed is pinned; the behaviour for any other seed, including degenerate ones, is not.",
 [H, "tweetnacl/tweetnacl.c", "dilithium2/sign.c", "sphincs/sign.c"],
 [("seed split and key layout", H + ": crypto_sign_dilithium_ed25519_sphincs_keypair_seed")],
 ["pk and sk bytes versus reference key generation"])
prop("C08", "Mnemonic seed expansion is fixed, documented and loses no seed bytes",
 "Expanding a 96-byte seed is deterministic: the first 64 bytes go through the library's SHAKE-256 seed expander to give the Ed25519 and SPHINCS+ portions of the 160-byte result, and the last 32 bytes are copied unchanged into the Dilithium portion. Every byte of the input seed influences the result, and no two different seeds expand to the same result.",
 ["inputs"], "all 96-byte seeds, all byte positions",
 "A single known-answer seed is pinned, which fixes nothing about other seeds or about which seed bytes are used.",
 [H, "common/shake_prng.c"],
 [("expander", H + ": crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander")],
 ["160-byte output"])
prop("C09", "Random keys, nonces and randomisers are fresh operating-system entropy",
 "Every randomly generated key pair is the deterministic key pair of a seed drawn in full, during that call, from the operating system's random source; every compact signature carries a 40-byte nonce, and every SPHINCS+ signature a randomiser derived from 32 bytes, drawn the same way during that call. No random byte is constant, reused from an earlier call or truncated, in any sequence of calls.",
 ["histories", "inputs"], "all sequences of key generation and signing calls and all outputs of the random source",
 "Tests only see that calls succeed; a nonce with fewer fresh bytes, a cached nonce or a fixed randomiser passes every round-trip.",
 [H, "random/randombytes.c", "sphincs/sign.c", "dilithium2/sign.c", "tweetnacl/tweetnacl.c"],
 [("randombytes calls", H + "; sphincs/sign.c; dilithium2/sign.c; tweetnacl/tweetnacl.c")],
 ["bytes served by an instrumented random source versus outputs"])
prop("C10", "The random source fills the whole buffer or reports failure",
 "A request for any number of random bytes either returns success with every requested byte written from the operating system's source and nothing outside the buffer touched, or returns failure. This holds for any sequence of short reads, interruptions and errors from the operating system, interruptions are retried rather than reported, and a request leaves no file descriptor or provider handle open.",
 ["fault_sequences", "inputs", "configurations"], "all sizes and all sequences of short/interrupted/failed system results, for each Linux source (getrandom, system call, /dev/urandom) and the other platforms' sources over stand-ins for their system calls (Windows, BSD, WASI)",
 "The tests run against the real kernel, which on this platform never interrupts, shortens or fails a small request, and compile only one of the sources.",
 ["random/randombytes.c"],
 [("retry/advance loops", "random/randombytes.c: randombytes_linux_randombytes_getrandom, _urandom")],
 ["return code, buffer contents, guard bytes, descriptors"])
prop("C11", "Failure of the random source makes every randomised operation fail",
 "If the operating system's random source fails at any point during key generation or signing, at the hybrid level or in any single scheme, that operation returns failure and reports no usable signature or key pair. It never continues with stale, zero or uninitialised bytes.",
 ["fault_sequences", "inputs"], "all operations that consume randomness, all points and kinds of failure, all keys and messages",
 "No test injects a failure into the random source.",
 [H, "sphincs/sign.c", "dilithium2/sign.c", "tweetnacl/tweetnacl.c", "random/randombytes.c"],
 [("return-code propagation", H + "; sphincs/sign.c; dilithium2/sign.c; tweetnacl/tweetnacl.c")],
 ["return codes and outputs under injected failures"])
prop("C12", "Invalid arguments are refused without touching any output",
 "Every hybrid operation with a missing (null) buffer, an empty message, a message longer than 64 bytes, or a signature whose stated length is outside or inconsistent with its format returns failure for every possible length value, without crashing and without writing any output. The seed expander utility likewise refuses missing buffers, seeds shorter than 32 bytes and outputs not longer than the seed.",
 ["inputs"], "all combinations of null arguments and all 64-bit lengths for messages and signatures, all 256 values of the identifier and length bytes",
 "Tests exercise a few lengths around the limits on the compact path only; combinations, very large lengths and the full mode are not covered.",
 [H, "common/shake_prng.c"],
 [("argument guards", H + ": first statement of each function; common/shake_prng.c: seedexpander_wrapper")],
 ["return codes, output buffers"])
prop("C13", "No call reads or writes outside the buffers the caller provided",
 "For arbitrary bytes in signatures, messages, public keys, secret keys and seeds, every operation has no undefined behaviour detectable at run time, reads only within the stated lengths of its inputs, writes only within the documented sizes of its outputs, and leaves its inputs unmodified. Key generation, hashing, verification and opening always terminate, and so does signing with a generated key.",
 ["inputs"], "all byte contents (honest, mutated and arbitrary) of every argument of every public operation, all valid lengths",
 "Tests pass honest or lightly modified inputs in oversized buffers and run without memory checking.",
 [H, "dilithium2/packing.c", "dilithium2/poly.c", "sphincs/", "tweetnacl/tweetnacl.c", "common/fips202.c", "common/shake_prng.c"],
 [("bounds in unpack and copy loops", "dilithium2/packing.c: unpack_sig; " + H)],
 ["sanitizer reports, guard pages, canaries, input copies"])
prop("C14", "A rejected signature releases no message",
 "Whenever opening a hybrid signature fails, for any reason, the caller's message buffer and message length are left exactly as they were. Opening with the single schemes never presents a message as valid on failure: it returns failure and delivers no byte of the unverified message in the message area, or clears it.",
 ["inputs"], "all rejected inputs (bad arguments, malformed, failing at any of the component checks)",
 "Tests look at the return code of failed opens, not at the output buffers, and never reach the later failure points of the full mode.",
 [H, "sphincs/sign.c", "dilithium2/sign.c", "tweetnacl/tweetnacl.c"],
 [("copy-out after the last check", H + ": end of both *_open functions")],
 ["message and length outputs after failure"])
prop("C15", "Verifying agrees with opening, and the two modes never mix",
 "For arbitrary inputs, verifying a message against a signature succeeds exactly when opening that signature with the same key succeeds and yields that same message. A full signature is never accepted by the compact operations nor a compact one by the full operations, and the standalone Dilithium check accepts exactly the valid Dilithium signatures of 1 to 64 byte messages.",
 ["inputs"], "all signatures (honest, mutated, component-spliced, other mode), all candidate messages (equal, prefix, extension, differing in one byte) and keys",
 "The full-mode verify function is not called by the stable tests; candidate messages that share a prefix or length with the signed one are not tried.",
 [H],
 [("verify = open + compare", H + ": crypto_verify_*"), ("identifier bytes", "common/hybrid-common.c")],
 ["return codes of verify versus open"])
prop("C16", "Dilithium2 keys and signatures match the specification for every input",
 "For every 32-byte seed or well-formed secret key and every message of any length including empty, key generation and (deterministic) signing produce byte-for-byte the keys and signatures of the Dilithium2 specification this library implements, and every produced signature verifies. The signed-message form may overlap its input as documented and recovers the exact message.",
 ["inputs"], "all seeds, all message lengths and contents, all rejection-loop paths, in-place and out-of-place use",
 "Round-trip tests on 32-byte messages with a few keys do not see wrong-but-self-consistent arithmetic, rare rejection branches or hash-block boundary lengths.",
 ["dilithium2/sign.c", "dilithium2/poly.c", "dilithium2/polyvec.c", "dilithium2/ntt.c", "dilithium2/reduce.c", "dilithium2/rounding.c", "dilithium2/packing.c", "dilithium2/symmetric-shake.c"],
 [("Fiat-Shamir with aborts", "dilithium2/sign.c"), ("NTT arithmetic", "dilithium2/ntt.c, reduce.c"), ("sampling", "dilithium2/poly.c")],
 ["key and signature bytes versus reference"])
prop("C17", "Dilithium2 verification accepts exactly the specified set of signatures",
 "For arbitrary public keys, messages and 2420-byte strings, verification accepts if and only if the specification does: every response coefficient is strictly below the norm bound, the hint encoding is canonical (increasing positions, bounded count, zero padding), and the recomputed challenge matches. Signatures at either side of each bound are classified correctly and any other signature length is rejected.",
 ["inputs"], "all keys, messages, signature strings and lengths, in particular strings crafted by a signer that skips its own rejection tests so that only one bound is violated",
 "Honest signatures never violate a bound, and random corruption always breaks the challenge hash too, so tests cannot tell whether the bounds and canonical-encoding rules are enforced.",
 ["dilithium2/sign.c", "dilithium2/packing.c", "dilithium2/poly.c", "dilithium2/polyvec.c", "dilithium2/rounding.c"],
 [("norm check", "dilithium2/poly.c: poly_chknorm"), ("hint decoding", "dilithium2/packing.c: unpack_sig"), ("challenge comparison", "dilithium2/sign.c: crypto_sign_verify")],
 ["accept/reject versus reference verifier"])
prop("C18", "SPHINCS+ keys and signatures match the specification for every input",
 "For every 96-byte seed, 32-byte randomiser and message of any length, key generation and signing produce byte-for-byte the keys and signatures of SPHINCS+-SHAKE-256f-simple, and every produced signature verifies. The signed-message form recovers the exact message.",
 ["inputs"], "all seeds, randomisers, message lengths and contents, hence all hypertree and few-time-signature leaf indices",
 "Round-trip tests cannot see a consistent deviation in addressing, tree indices or hashing, which silently weakens or breaks interoperability of the long-lived break-glass key.",
 ["sphincs/sign.c", "sphincs/fors.c", "sphincs/wots.c", "sphincs/wotsx1.c", "sphincs/merkle.c", "sphincs/utils.c", "sphincs/utilsx1.c", "sphincs/address.c", "sphincs/hash_shake.c", "sphincs/thash_shake_simple.c"],
 [("hypertree signing", "sphincs/sign.c, merkle.c, utilsx1.c"), ("addresses", "sphincs/address.c, shake_offsets.h")],
 ["key and signature bytes versus reference"])
prop("C19", "SPHINCS+ verification accepts only exact signatures",
 "For arbitrary public keys, messages and strings, SPHINCS+ verification accepts if and only if the string has exactly the signature length and the root recomputed from it equals the root in the public key. Changing any byte of the signature, message or public key of a valid signature leads to rejection.",
 ["inputs"], "all signatures and byte offsets across the randomiser, every few-time-signature tree, every one-time signature chain and authentication path of every layer, all messages and keys, all lengths",
 "Tests change a few bytes only; a verifier that skips one chain, tree, layer or the tail of the root comparison passes them.",
 ["sphincs/sign.c", "sphincs/fors.c", "sphincs/wots.c", "sphincs/utils.c"],
 [("root recomputation and comparison", "sphincs/sign.c: crypto_sign_verify")],
 ["accept/reject versus reference verifier"])
prop("C20", "Ed25519 keys, signatures and verification follow RFC 8032",
 "For every 32-byte seed and every message of any length, Ed25519 key generation and signing produce the RFC 8032 key and signature. Verification accepts if and only if the public key decodes to a curve point, the scalar half of the signature is below the group order and the recomputed commitment equals the one in the signature.",
 ["inputs"], "all seeds, message lengths and contents; all 64-byte signatures and canonical 32-byte public keys, including small-order points, off-curve values and scalars at and above the group order",
 "Ed25519 is only exercised through hybrid round-trips with random 32- or 64-byte inputs.",
 ["tweetnacl/tweetnacl.c"],
 [("field/group arithmetic, SHA-512, scalar reduction", "tweetnacl/tweetnacl.c: crypto_sign*, modL, scalarmult, pack/unpackneg")],
 ["keys, signatures, accept/reject versus reference"])
prop("C21", "SHA-3 and SHAKE outputs equal FIPS 202 for every input and chunking",
 "For every input length and content, the SHA3-256/384/512 and SHAKE128/256 functions return the FIPS 202 values. The incremental forms give the same result however the input is split into absorb calls and the output into squeeze calls, and a cloned state continues independently of its original.",
 ["inputs", "histories"], "all input lengths and contents, all output lengths, all sequences of absorb/finalise/squeeze/clone/release calls",
 "The suite has no hash test at all; hashes are only used with a few fixed lengths inside the schemes.",
 ["common/fips202.c"],
 [("sponge and buffering", "common/fips202.c: keccak_absorb, keccak_inc_*")],
 ["hash outputs versus reference over generated call sequences"])
prop("C22", "The seed expander is a fixed SHAKE-256 stream with stated error rules",
 "Expanding a seed yields SHAKE-256 of the seed followed by the domain byte 2, for every seed and output length. When the output is drawn in several requests, each request continues the stream, starting at the next multiple of eight bytes; the one-call form returns exactly the prefix of that stream.",
 ["inputs", "histories"], "all seeds and seed lengths, all sequences of request lengths",
 "A few known answers fix single-request outputs of particular sizes.",
 ["common/shake_prng.c", "common/domains.h"],
 [("expander", "common/shake_prng.c")],
 ["output bytes versus reference"])
prop("C23", "Operations are stateless and safe to run concurrently",
 "The result of any operation depends only on its own arguments and the random bytes it draws, never on which operations ran before it or are running at the same time in other threads. Any number of threads may run any operations on different outputs, sharing keys, messages and signatures, without data races and with the same results as running alone.",
 ["schedules", "histories"], "all interleavings of any operations in several threads and all prior call histories, including failed and rejected calls",
 "All tests are single-threaded and run each operation in a fixed order.",
 [H, "sphincs/", "dilithium2/", "common/fips202.c", "tweetnacl/tweetnacl.c", "random/randombytes.c"],
 [("no mutable static state", "whole library")],
 ["results under generated histories and thread schedules; race detector"])
prop("C24", "NaCl box, secretbox, stream, MAC, X25519 and SHA-512 follow their specs",
 "The bundled public-key box, secret-key box, Salsa20/XSalsa20 stream, Poly1305 authenticator, X25519 and SHA-512 functions compute the specified values for every key, nonce and message of any length, and boxes round-trip. Opening a box or checking an authenticator fails whenever the ciphertext, tag, nonce or key was altered, and a failed or too short open delivers no plaintext.",
 ["inputs"], "all keys, points, nonces, message lengths and contents, all alterations",
 "No test calls these functions.",
 ["tweetnacl/tweetnacl.c", "tweetnacl/tweetnacl.h"],
 [("box/secretbox/stream/onetimeauth/scalarmult/hash", "tweetnacl/tweetnacl.c")],
 ["outputs versus reference"])
prop("C25", "The WebAssembly interface behaves exactly like the native library",
 "Built for 32-bit WebAssembly, each exported function returns the same results as the corresponding native operation for the same inputs and random bytes, including error codes for bad arguments: the interface signs and verifies in compact mode, and both platforms accept each other's signatures. Random bytes come only from the host's cryptographic generator, its absence or failure is reported as failure, and memory released through the interface is wiped first.",
 ["inputs", "configurations", "fault_sequences"], "all keys, messages, signatures and seeds on both platforms; all host environments (browser, Node, no generator, failing generator)",
 "The WebAssembly wrapper and the 32-bit build are not compiled or run by any test.",
 ["wasm/hybrid-pqc.c", "random/randombytes.c", H],
 [("wrappers", "wasm/hybrid-pqc.c"), ("host generator", "random/randombytes.c: randombytes_js_randombytes_nodejs")],
 ["module exports run in a WebAssembly engine versus native results"])
prop("C26", "Memory exhaustion never yields a wrong result and no call leaks memory",
 "If any memory allocation fails during any operation, the operation ends by terminating the process with an error or by returning failure; it never returns success with a wrong result, accepts a bad signature, or crashes with a memory fault. Every operation, successful or failed, releases all memory it allocated.",
 ["fault_sequences", "inputs"], "every allocation point of every operation, all operations and error paths",
 "No test injects allocation failure or counts allocations.",
 ["common/fips202.c", "sphincs/context_shake.c", "sphincs/hash_shake.c", "sphincs/thash_shake_simple.c", "dilithium2/symmetric-shake.c"],
 [("allocation check and exit(111)", "common/fips202.c"), ("context release", "all users of the hash contexts")],
 ["exit status / return code per failed allocation, allocation balance"])
prop("C27", "Ed25519, X25519 and NaCl secrets do not steer control flow or addresses",
 "For inputs of the same lengths, Ed25519 key generation and signing, X25519, secret-key boxes, fixed-length comparisons, hashing, seed expansion and SPHINCS+ key generation execute the same sequence of branches and memory accesses whatever the secret values are. Observing the executed path or the addresses touched therefore reveals nothing about the secret.",
 ["inputs"], "all pairs of secrets (and messages or points) of equal length",
 "Timing behaviour is not observable in functional tests; a data-dependent branch or table lookup gives correct outputs.",
 ["tweetnacl/tweetnacl.c", "common/fips202.c", "sphincs/"],
 [("branch-free field arithmetic and comparison", "tweetnacl/tweetnacl.c: sel25519, cswap, vn")],
 ["instrumented control-flow and memory-access traces"])
prop("C28", "Results never depend on uninitialised memory, compiler or optimisation",
 "No operation's result, return code or output bytes depend on uninitialised memory: with arbitrary prior contents of stack, heap and output buffers the same arguments and random bytes give the same outputs. The same holds across compilers and optimisation levels.",
 ["inputs", "configurations"], "all arguments of every operation, all prior memory contents, unoptimised and optimised builds of two compilers",
 "Tests run one build and cannot observe what uninitialised memory contained.",
 [H, "sphincs/", "dilithium2/", "common/", "tweetnacl/tweetnacl.c"],
 [("explicit initialisation before use", "whole library")],
 ["outputs across builds and poisoned memory; uninitialised-use detector"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
