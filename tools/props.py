"""Per-property configuration of the checks: harness sources, build variants, rule for a non-trivial case."""
HYB = ["ref.cpp", "hy.cpp", "craft.cpp", "props_hybrid.cpp"]
HYI = ["ref.cpp", "hy.cpp", "props_hybrid.cpp"]
PRIM = ["ref.cpp", "hy.cpp", "craft.cpp", "props_prim.cpp"]
ENV = ["ref.cpp", "hy.cpp", "ops.cpp", "props_env.cpp"]
OPS = ["ref.cpp", "hy.cpp", "ops.cpp", "props_ops.cpp"]
KEYMSG = "a key pair was generated and a signature made, opened and verified; distinct by (public key, message)"
PROPS = {
 "C01": dict(src=HYB, ideal_src=HYI, variants=["rel", "ideal", "asan"], rule=KEYMSG),
 "C02": dict(src=HYB, ideal_src=HYI, variants=["rel", "ideal", "asan", "cov"], rule=KEYMSG),
 "C03": dict(src=HYB, ideal_src=HYI, variants=["rel", "ideal", "cov"], rule="well-formed full signature whose three parts were each assembled as valid or invalid in a chosen way; distinct by (key, signature bytes)"),
 "C04": dict(src=HYB, ideal_src=HYI, variants=["rel", "ideal", "cov"], rule="well-formed compact signature whose parts, nonce, message and key were chosen valid or wrong; distinct by (key, signature bytes)"),
 "C05": dict(src=HYB, ideal_src=HYI, variants=["rel", "ideal", "cov"], rule="an accepted signature was altered in the signature, the message or the public key; distinct by the altered bytes"),
 "C06": dict(src=HYB, ideal_src=HYI, variants=["rel", "ideal", "cov"], rule="signature bytes compared with the reference, or a reference-made signature opened; distinct by signature bytes"),
 "C07": dict(src=ENV, variants=["rel", "ideal", "asan", "cov"], rule="a key pair was generated from a seed and compared with the reference (or with the key pair of a seed differing in one byte); distinct by seed"),
 "C08": dict(src=ENV, variants=["rel", "asan", "cov"], rule="a seed was expanded and every output byte compared; distinct by seed"),
 "C09": dict(src=ENV, variants=["rel", "ideal"], rule="a history of operations in which every drawn secret was traced back to bytes served by the random source during that call; distinct by the outputs"),
 "C10": dict(src=ENV, variants=["rel", "asan", "cov"], rule="a request executed under a generated plan of short, interrupted and failed results; distinct by (source, size, plan, stream)"),
 "C11": dict(src=ENV, variants=["rel", "ideal", "asan"], rule="the random source delivered a hard error during the operation; distinct by (operation, arguments, point of failure)"),
 "C12": dict(src=HYB, ideal_src=HYI, variants=["rel", "ideal", "asan"], rule="a call with at least one argument outside the documented domain; distinct by (operation, arguments)"),
 "C13": dict(src=OPS, variants=["rel", "ideal", "asan", "cov"], rule="an operation was run on guarded buffers with generated (honest or arbitrary) argument bytes; distinct by (operation, argument bytes)"),
 "C14": dict(src=HYB, ideal_src=HYI, variants=["rel", "ideal", "asan"], rule="an opening that was rejected; distinct by (key, signature bytes)"),
 "C15": dict(src=HYB, ideal_src=HYI, variants=["rel", "ideal", "cov"], rule="verify and open were both called on the same signature and key; distinct by (signature, key, candidate message)"),
 "C16": dict(src=PRIM, variants=["rel", "cov"], rule="a key pair or signature was produced by the library and compared with the reference; distinct by (secret key or seed, message)"),
 "C17": dict(src=PRIM, variants=["rel", "cov"], rule="library and reference verdicts were compared on one (key, message, signature); distinct by those bytes"),
 "C18": dict(src=PRIM, variants=["rel", "cov"], rule="a key pair or signature was produced by the library and compared with the reference; distinct by (secret key or seed, message, randomiser)"),
 "C19": dict(src=PRIM, variants=["rel", "cov"], rule="the library's verdict on one (key, message, signature) was compared with the expected one; distinct by those bytes"),
 "C20": dict(src=PRIM, variants=["rel", "cov"], rule="key and signature bytes, or the verdict on a signature, were compared with the reference; distinct by (seed, message) or (key, message, signature)"),
 "C21": dict(src=PRIM, variants=["rel", "asan", "cov"], rule="at least one output was squeezed and compared; distinct by (algorithm, operation sequence or input)"),
 "C22": dict(src=PRIM, variants=["rel", "asan", "cov"], rule="output produced and compared with the SHAKE-256 stream; distinct by (seed, request lengths)"),
 "C23": dict(src=OPS, variants=["rel", "ideal", "tsan"], rule="a history of at least two calls on the same buffers, or the same calls in at least two threads, every result compared with the reference; distinct by the calls"),
 "C24": dict(src=PRIM, variants=["rel", "cov"], rule="output or verdict compared with the reference; distinct by input bytes"),
 "C25": dict(src=["ref.cpp", "hy.cpp", "ops.cpp", "props_wasm.cpp"], variants=["wasm"], rule="an exported function was run in the WebAssembly engine and its results compared with the reference or the native library, or released memory holding non-zero data was inspected; distinct by (function, arguments, host)"),
 "C26": dict(src=OPS + ["craft.cpp", "props_prim.cpp"], variants=["rel", "asan"], rule="allocation failures were injected into the operation, or its allocation balance was checked; distinct by (operation, arguments)"),
 "C27": dict(src=["ref.cpp", "hy.cpp", "props_ct.cpp"], variants=["ct"], rule="two runs of the operation with different secret contents of equal length whose full branch and address traces were compared; distinct by both inputs"),
 "C28": dict(src=OPS, variants=["rel", "gccO0", "gccO2", "clangO0", "clangO3", "msan"], digest=True, rule="the operation was run under several memory contents, builds or the uninitialised-use detector; distinct by (operation, arguments)"),
}
NOT_APPLICABLE = {}
