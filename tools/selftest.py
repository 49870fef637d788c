#!/usr/bin/env python3
"""Validates harness/ref.cpp against hashlib, openssl and big-integer Python code. Independent of /repo."""
import hashlib, os, random, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); R = random.Random(7)
L = 2**252 + 27742317777372353535851937790883648493; P = 2**255 - 19
with tempfile.TemporaryDirectory() as tmp:
    exe = tmp + "/refcli"; subprocess.check_call(["g++", "-std=c++17", "-O2", "-w", V + "/tools/refcli.cpp", V + "/harness/ref.cpp", "-o", exe])
    reqs, want = [], []
    rb = lambda n: R.randbytes(n)
    h = lambda b: b.hex() or "-"
    def add(line, w): reqs.append(line); want.append(w)
    for n in list(range(0, 300)) + [1000, 5000]:
        m = rb(n); o = R.randrange(1, 600)
        add("shake256 %s %04x" % (h(m), o), hashlib.shake_256(m).hexdigest(o)); add("shake128 %s %04x" % (h(m), o), hashlib.shake_128(m).hexdigest(o))
        for f in ("sha3_256", "sha3_384", "sha3_512", "sha512"):
            add("%s %s" % (f, h(m)), getattr(hashlib, f)(m).hexdigest())
    for _ in range(200):
        a, b, c = rb(32), rb(32), rb(32); x = [int.from_bytes(v, "little") for v in (a, b, c)]
        add("muladd %s %s %s" % (h(a), h(b), h(c)), ((x[0] * x[1] + x[2]) % L).to_bytes(32, "little").hex())
    for i in range(200):   # Poly1305 in big integers
        m, k = rb(R.randrange(0, 100)), (b"\xff" * 32 if i % 5 == 0 else rb(32)); m = b"\xff" * len(m) if i % 7 == 0 else m
        r = int.from_bytes(k[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff; acc = 0
        for j in range(0, len(m), 16):
            acc = (acc + int.from_bytes(m[j:j + 16] + b"\1", "little")) * r % (2**130 - 5)
        add("poly1305 %s %s" % (h(m), h(k)), ((acc + int.from_bytes(k[16:], "little")) % 2**128).to_bytes(16, "little").hex())
    def x25519(k, u):
        k = bytearray(k); k[0] &= 248; k[31] = k[31] & 127 | 64; k = int.from_bytes(k, "little"); x1 = int.from_bytes(u, "little") % 2**255 % P
        x2, z2, x3, z3, sw = 1, 0, x1, 1, 0
        for t in reversed(range(255)):
            kt = k >> t & 1; sw ^= kt
            if sw: x2, x3, z2, z3 = x3, x2, z3, z2
            sw = kt; A = x2 + z2; AA = A * A; B = x2 - z2; BB = B * B; E = AA - BB; C = x3 + z3; D = x3 - z3; DA = D * A; CB = C * B
            x3 = (DA + CB)**2 % P; z3 = x1 * (DA - CB)**2 % P; x2 = AA * BB % P; z2 = E * (AA + 121665 * E) % P
        if sw: x2, z2 = x3, z3
        return (x2 * pow(z2, P - 2, P) % P).to_bytes(32, "little")
    for i in range(40):
        k, u = rb(32), (b"\xff" * 32 if i == 0 else bytes(32) if i == 1 else rb(32)); add("x25519 %s %s" % (h(k), h(u)), x25519(k, u).hex())
    # XSalsa20 in plain Python
    def rot(x, n): return (x << n | x >> (32 - n)) & 0xffffffff
    def rounds(s):
        x = list(s)
        for _ in range(10):
            for q in [(0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11), (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)]:
                a, b, c, d = q; x[b] ^= rot((x[a] + x[d]) & 0xffffffff, 7); x[c] ^= rot((x[b] + x[a]) & 0xffffffff, 9); x[d] ^= rot((x[c] + x[b]) & 0xffffffff, 13); x[a] ^= rot((x[d] + x[c]) & 0xffffffff, 18)
        return x
    w = lambda b: [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]; SIG = w(b"expand 32-byte k")
    st = lambda k, n: [SIG[0]] + k[:4] + [SIG[1]] + n + [SIG[2]] + k[4:] + [SIG[3]]
    for _ in range(30):
        n, k, o = rb(24), rb(32), R.randrange(0, 400); z = rounds(st(w(k), w(n[:16]))); sub = [z[i] for i in (0, 5, 10, 15, 6, 7, 8, 9)]; out = b""
        for c in range(o // 64 + 1):
            s = st(sub, w(n[16:]) + [c, 0]); out += b"".join(((a + b) & 0xffffffff).to_bytes(4, "little") for a, b in zip(rounds(s), s))
        add("xsalsa %s %s %04x" % (h(n), h(k), o), out[:o].hex())
    for i in range(30):     # Ed25519 through openssl
        seed, m = rb(32), rb(R.randrange(0, 300))
        open(tmp + "/k.der", "wb").write(bytes.fromhex("302e020100300506032b657004220420") + seed); open(tmp + "/m", "wb").write(m)
        pk = subprocess.check_output(["openssl", "pkey", "-in", tmp + "/k.der", "-inform", "DER", "-pubout", "-outform", "DER"])[-32:]
        add("edpk %s" % h(seed), pk.hex())
        if m:
            sig = subprocess.check_output(["openssl", "pkeyutl", "-sign", "-rawin", "-in", tmp + "/m", "-inkey", tmp + "/k.der", "-keyform", "DER"])
            add("edsign %s %s" % (h(seed), h(m)), sig.hex()); add("edverify %s %s %s" % (h(pk), h(m), h(sig)), "01")
            bad = bytearray(sig); bad[R.randrange(64)] ^= 1 << R.randrange(8); add("edverify %s %s %s" % (h(pk), h(m), h(bytes(bad))), "00")
    for _ in range(30):
        add("dilmul %s %s" % (h(rb(768)), h(rb(768))), "01"); add("dilrt %s %s %04x" % (h(rb(32)), h(rb(20)), R.randrange(65536)), "0100")
    for _ in range(2):
        add("spxrt %s %s %04x" % (h(rb(96)), h(rb(20)), R.randrange(65536)), "0100")
    got = subprocess.run([exe], input="\n".join(reqs) + "\n", stdout=subprocess.PIPE, text=True).stdout.split("\n")
    bad = [(r, g, x) for r, g, x in zip(reqs, got, want) if g != x]
    for b in bad[:5]:
        print("MISMATCH", b[0][:120], b[1][:80], b[2][:80])
    print("%d reference computations checked, %d wrong" % (len(want), len(bad)))
    sys.exit(1 if bad or len(got) < len(want) else 0)
