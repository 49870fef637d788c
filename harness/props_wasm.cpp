// C25: the WebAssembly module, run by node, against the reference and the native library.
#include "hy.h"
#include "ops.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string hx(const Bytes& b) { static const char* d = "0123456789abcdef"; std::string s; s.reserve(b.size() * 2); for (uint8_t c : b) { s += d[c >> 4]; s += d[c & 15]; } return s; }
static Bytes unhx(const std::string& s) { auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; Bytes b(s.size() / 2); for (size_t i = 0; i < b.size(); i++) b[i] = v(s[2 * i]) << 4 | v(s[2 * i + 1]); return b; }

struct Node { pid_t owner = 0, pid = 0; int in = -1, out = -1; unsigned used = 0; std::string buf; };
static Node nodes[2];
static Node& node(unsigned which) {
  Node& n = nodes[which];
  if (n.owner == getpid() && n.used < 4000) return n;
  if (n.in >= 0) { close(n.in); close(n.out); if (n.owner == getpid()) waitpid(n.pid, nullptr, 0); }
  const char* mod = getenv(which ? "VF_WASM_O2" : "VF_WASM_O0"); const char* host = getenv("VF_WASM_HOST");
  if (!mod || !host) { fprintf(stderr, "VF_WASM_* not set\n"); _exit(2); }
  int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); _exit(2); }
  n = Node(); n.owner = getpid(); n.pid = fork();
  if (n.pid == 0) { dup2(a[0], 0); dup2(b[1], 1); execlp("node", "node", "--stack-size=4000", host, mod, (char*)nullptr); _exit(127); }
  close(a[0]); close(b[1]); n.in = a[1]; n.out = b[0]; signal(SIGPIPE, SIG_IGN); return n;
}
static std::string ask(unsigned which, const std::string& req) {
  Node& n = node(which); n.used++; std::string l = req + "\n";
  for (size_t o = 0; o < l.size();) { ssize_t r = write(n.in, l.data() + o, l.size() - o); if (r < 0 && errno == EINTR) continue; if (r <= 0) failf("the WebAssembly host stopped"); o += r; }
  size_t p; while ((p = n.buf.find('\n')) == std::string::npos) { char t[65536]; ssize_t r = read(n.out, t, sizeof t); if (r < 0 && errno == EINTR) continue; if (r <= 0) failf("the WebAssembly host stopped while running %s", req.substr(0, 200).c_str()); n.buf.append(t, r); }
  std::string a = n.buf.substr(0, p); n.buf.erase(0, p + 1); return a;
}
struct Ans { bool ok; int rc; std::string exc; Bytes served; std::vector<Bytes> outs; };   // ok: returned normally
struct Req {
  std::string kind = "node"; Bytes stream; long failAfter = -1; std::string fn, args;
  Req(const char* f) : fn(f) {}
  Req& in(const Bytes& b) { return raw("{\"in\":\"" + hx(b) + "\"}"); }
  Req& out(size_t n, unsigned fill = 0xA5) { return raw(strf("{\"out\":%zu,\"fill\":%u}", n, fill)); }
  Req& num(uint32_t v) { return raw(strf("%u", v)); }
  Req& null() { return raw("null"); }
  Req& raw(const std::string& s) { if (!args.empty()) args += ","; args += s; return *this; }
  Ans go(unsigned which) {
    std::string a = ask(which, "{\"host\":\"" + kind + "\",\"stream\":\"" + hx(stream) + "\",\"failAfter\":" + strf("%ld", failAfter) + ",\"fn\":\"" + fn + "\",\"args\":[" + args + "]}");
    std::vector<std::string> t; size_t p = 0; while (p <= a.size()) { size_t e = a.find(' ', p); if (e == std::string::npos) e = a.size(); t.push_back(a.substr(p, e - p)); p = e + 1; }
    CHECK(t.size() >= 7 && t[0] == "rc", "%s: unexpected answer from the WebAssembly host: %s", fn.c_str(), a.substr(0, 200).c_str());
    Ans r; r.ok = t[1].find("_") == std::string::npos; r.rc = r.ok ? atoi(t[1].c_str()) : 0; if (!r.ok) r.exc = t[1];
    CHECK(r.exc.compare(0, 4, "trap") && r.exc.compare(0, 4, "exit"), "%s: the module stopped: %s", fn.c_str(), t[1].c_str());
    CHECK(t[2] == "1", "%s wrote outside its buffers", fn.c_str()); CHECK(t[3] == "0", "%s modified an input buffer", fn.c_str());
    CHECK(t[4] == "1", t[4] == "-1" ? "memory released after %s was not wiped" : "mem_free after %s did not release the block", fn.c_str());
    if (r.ok) CHECK(t[5] == "0", "%s leaves %s memory blocks allocated", fn.c_str(), t[5].c_str());
    r.served = unhx(t[6].substr(1)); for (size_t i = 7; i < t.size(); i++) r.outs.push_back(unhx(t[i].substr(1))); return r;
  }
};
static const char* kGood[] = {"node", "browser", "both", "windownode", "windowempty"};
static const char* kNone[] = {"none", "nonewindow", "norequire"};
static Bytes u64le(uint64_t v) { Bytes b(8); for (int i = 0; i < 8; i++) b[i] = v >> (8 * i); return b; }
static Bytes tail(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }

// choose a host; returns false if no generator will answer
static bool gen_host(Gen& g, Req& r, size_t need) {
  switch (g.u(6)) {
    case 4: { unsigned k = g.u(3); r.kind = kNone[k]; g.label(r.kind); return false; }
    case 5: { r.kind = kGood[g.u(5)]; r.failAfter = need ? g.u(need) : 0; g.label("failing-" + r.kind); return need == 0; }
    default: r.kind = kGood[g.u(5)]; g.label(r.kind); return true;
  }
}
static void failed(const Ans& a, const char* what, const std::string& kind) { CHECK(a.ok, "%s throws (%s) instead of returning an error code when the host (%s) delivers no random bytes", what, a.exc.c_str(), kind.c_str()); CHECK(a.rc != 0, "%s reports success although the host (%s) delivered no random bytes", what, kind.c_str()); }

static void c25_key(Gen& g) {
  unsigned w = g.u(2); bool rnd = g.u(2);
  Bytes seed = g.bytes(160); Req r(rnd ? "dp_sign_keypair" : "dp_sign_keypair_seed"); r.out(PKB).out(SKB); bool ok = true;
  if (rnd) { ok = gen_host(g, r, 160); r.stream = seed; } else r.in(seed);
  Ans a = r.go(w); g.label(r.fn); g.nontrivial(hash64(seed, hash64(r.kind, ok))); g.desc("%s on host %s, seed %s", r.fn.c_str(), r.kind.c_str(), hex(seed, 12).c_str());
  if (!ok) { failed(a, r.fn.c_str(), r.kind); return; }
  CHECK(a.ok && a.rc == 0, "%s failed (%s%d) on host %s", r.fn.c_str(), a.exc.c_str(), a.rc, r.kind.c_str());
  Key k = hyr_keypair(seed);
  CHECK(a.outs[0] == k.pk && a.outs[1] == k.sk, "%s: the keys for the random bytes %s differ from the native library's", r.fn.c_str(), hex(seed, 160).c_str());
}
static void c25_sign(Gen& g) {
  unsigned w = g.u(2); Key k = gen_key(g); Bytes m = gen_msg(g), nonce = g.bytes(40); Req r("dp_sign");
  r.out(COMPX + m.size()).out(8).in(m).num(m.size()).in(k.sk); bool ok = gen_host(g, r, 40); r.stream = nonce;
  Ans a = r.go(w); g.nontrivial(hash64(m, hash64(k.pk, hash64(nonce, ok)))); g.desc("dp_sign of %zu bytes on host %s", m.size(), r.kind.c_str());
  if (!ok) { failed(a, "dp_sign", r.kind); return; }
  CHECK(a.ok && a.rc == 0, "dp_sign failed (%s%d) on host %s", a.exc.c_str(), a.rc, r.kind.c_str());
  Bytes want = hyr_sign_compact(k, m, nonce);
  CHECK(tail(a.outs[1], 0, 4) == tail(u64le(want.size()), 0, 4), "dp_sign reports length %s instead of %zu", hex(a.outs[1]).c_str(), want.size());
  CHECK(a.outs[0] == want, "dp_sign: the signature differs from the native library's");
  CHECK(lib_verify(COMPACT, m, a.outs[0], k.pk) == 0, "the native library rejects a signature of the module");
  Req v("dp_sign_verify"); v.in(m).num(m.size()).in(want).num(want.size()).in(k.pk); Ans b = v.go(1 - w); CHECK(b.ok && b.rc == 0, "dp_sign_verify rejects a good signature (%d)", b.rc);
}
static void c25_verify(Gen& g) {
  unsigned w = g.u(2); Key k = gen_key(g); Bytes m = gen_msg(g), s = hyr_sign_compact(k, m, g.rnd(40)), pk = k.pk, mm = m; uint32_t ml = m.size(), sl;
  unsigned what = g.u(9); const char* n = "honest";
  switch (what) {
    case 1: s[g.u(s.size())] ^= 1 << g.u(8); n = "altered signature"; break;
    case 2: mm[g.u(mm.size())] ^= 1 << g.u(8); n = "other message"; break;
    case 3: pk[g.u(PKB)] ^= 1 << g.u(8); n = "altered key"; break;
    case 4: { unsigned i = g.u(4); size_t off[] = {0, 2, 66, 2486}, len[] = {2, 64, 2420, 40}; s[off[i] + g.u(len[i])] ^= 1 << g.u(8); n = "altered field"; break; }
    case 5: { Bytes f = g.bytes(64); std::copy(f.begin(), f.begin() + 1 + g.u(63), s.begin() + 2 + g.u(2)); n = "overwritten"; break; }
    case 6: s[0] = g.u(256); n = "mode byte"; break;
  }
  sl = s.size();
  if (what == 7) { uint32_t c[] = {ml - 1, ml + 1, 0, 65, 0xffffffffu, 0x80000000u, ml | 256, ml << 8}; ml = c[g.u(8)]; n = "other message length"; mm.resize(std::max<size_t>(mm.size(), 70)); }
  if (what == 8) { uint32_t c[] = {sl - 1, sl + 1, 0, 2526, 2527, 2590, 2591, 0xffffffffu, 0x80000000u + sl, sl + 65536}; sl = c[g.u(10)]; n = "other signature length"; s.resize(std::max<size_t>(s.size(), 2600)); }
  Req r("dp_sign_verify"); r.in(mm).num(ml).in(s).num(sl).in(pk); Ans a = r.go(w);
  int nat = lib_verify(COMPACT, mm, ml, s, sl, pk);
  Bytes ss = s; bool want = false; if (sl <= ss.size() && ml <= mm.size()) { ss.resize(sl); Bytes got, cand = mm; cand.resize(ml); want = hyr_open_compact(ss, pk, &got) && got == cand; }
  CHECK(a.ok && a.rc == nat && (a.rc == 0) == want, "dp_sign_verify returns %s%d, natively %d, expected %s (%s, message length %u, signature length %u)", a.exc.c_str(), a.rc, nat, want ? "acceptance" : "rejection", n, ml, sl);
  g.label(n); g.label(want ? "accept" : "reject"); g.nontrivial(hash64(s, hash64(mm, hash64(pk, sl * 1000003ULL + ml)))); g.desc("dp_sign_verify, %s -> %d", n, a.rc);
}
static void c25_seed(Gen& g) {
  unsigned w = g.u(2);
  if (g.u(2)) {
    Bytes s = g.bytes(96); GBuf in(s), out(160); int rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(in, out); Req r("dp_sign_seedexpander"); r.in(s).out(160); Ans a = r.go(w);
    CHECK(a.ok && a.rc == rc && a.outs[0] == out.get(), "dp_sign_seedexpander(%s) returns %d and %s, natively %d and %s", hex(s, 96).c_str(), a.rc, hex(a.outs[0]).c_str(), rc, hex(out.get()).c_str());
    g.label("seedexpander"); g.nontrivial(hash64(s)); g.desc("dp_sign_seedexpander(%s)", hex(s, 12).c_str());
  } else {
    Bytes s = g.bytes(g.len(0, 200, {31, 32, 33, 96, 135, 136, 137})); size_t n = g.len(0, 600, {s.size(), 136, 272, 96, 160}); GBuf in(s), out(n); int rc = seedexpander_wrapper(in, s.size(), out, n);
    Req r("dp_seedexpander_wrapper"); r.in(s).num(s.size()).out(n).num(n); Ans a = r.go(w);
    CHECK(a.ok && a.rc == rc, "dp_seedexpander_wrapper(%zu, %zu) returns %d, natively %d", s.size(), n, a.rc, rc);
    CHECK(a.outs[0] == out.get(), "dp_seedexpander_wrapper(%zu -> %zu bytes) differs from the native output", s.size(), n);
    g.label(strf("wrapper%d", rc)); g.nontrivial(hash64(s, n)); g.desc("dp_seedexpander_wrapper(%zu bytes -> %zu) = %d", s.size(), n, rc);
  }
}
static void c25_random(Gen& g) {
  unsigned w = g.u(2); size_t n = g.u(8) == 7 ? g.len(0, 200000, {65535, 65536, 65537, 131072}) : g.len(0, 600, {1, 32, 40, 160, 255, 256, 257}); Bytes st = n ? g.bytes(n > 600 ? 600 : n) : Bytes(); Req r("dp_randombytes"); r.out(n, g.u(256)).num(n); bool ok = gen_host(g, r, n); r.stream = st;
  Ans a = r.go(w); g.nontrivial(hash64(st, hash64(r.kind, n * 2 + ok))); g.desc("dp_randombytes(%zu) on host %s, fails after %ld", n, r.kind.c_str(), r.failAfter);
  if (n == 0) { if (ok) CHECK(a.ok && a.rc == 0, "dp_randombytes(0) failed (%s%d) on host %s, natively 0", a.exc.c_str(), a.rc, r.kind.c_str()); return; }
  if (!ok) { failed(a, "dp_randombytes", r.kind); return; }
  bool browser = r.kind == "browser" || r.kind == "both";
  if (browser && n > 65536 && a.ok && a.rc != 0) { g.label("quota"); return; }    // more than a browser hands out per request: a reported failure
  CHECK(a.ok && a.rc == 0, "dp_randombytes(%zu) failed (%s%d) on host %s", n, a.exc.c_str(), a.rc, r.kind.c_str());
  CHECK(a.outs[0] == a.served, "dp_randombytes(%zu) on host %s: the buffer does not hold the host's random bytes", n, r.kind.c_str());
}
// out-of-domain arguments: same codes as the native library, outputs untouched or equal
static void c25_bad(Gen& g) {
  unsigned w = g.u(2); Key k = pool_key(g.u(4)); Bytes m = gen_msg(g); unsigned op = g.u(5); unsigned nullmask; int nat = 0; Ans a; const char* name = ""; uint32_t ml = m.size();
  uint32_t lens[] = {0, 65, 66, 255, 256, 257, 4096, 0x7fffffff, 0x80000000u, 0xffffffffu};
  auto pin = [&](Req& r, bool nul, const Bytes& b) { if (nul) r.null(); else r.in(b); }; auto pout = [&](Req& r, bool nul, size_t n) { if (nul) r.null(); else r.out(n); };
  bool ok;
  switch (op) {
    case 0: { name = "dp_sign"; nullmask = 1 + g.u(15); if (g.u(3) == 0) { nullmask = 0; ml = lens[g.u(10)]; m.resize(std::max<size_t>(m.size(), 70)); } Req r(name); pout(r, nullmask & 1, COMPX + 70); pout(r, nullmask & 2, 8); pin(r, nullmask & 4, m); r.num(ml); pin(r, nullmask & 8, k.sk); a = r.go(w);
      GBuf sm(COMPX + 70), l(8), in(m), sk(k.sk); rng_seed(1); nat = crypto_sign_compact_dilithium_ed25519_sphincs(nullmask & 1 ? nullptr : sm.p, nullmask & 2 ? nullptr : (unsigned long long*)l.p, nullmask & 4 ? nullptr : in.p, ml, nullmask & 8 ? nullptr : sk.p);
      ok = !a.served.size(); CHECK(ok || nat == 0, "dp_sign drew random bytes before checking its arguments"); break; }
    case 1: { name = "dp_sign_verify"; nullmask = 1 + g.u(7); Bytes s = hyr_sign_compact(k, m, Bytes(40, 7)); Req r(name); pin(r, nullmask & 1, m); r.num(ml); pin(r, nullmask & 2, s); r.num(s.size()); pin(r, nullmask & 4, k.pk); a = r.go(w);
      GBuf in(m), sm(s), pk(k.pk); nat = crypto_verify_compact_dilithium_ed25519_sphincs(nullmask & 1 ? nullptr : in.p, ml, nullmask & 2 ? nullptr : sm.p, s.size(), nullmask & 4 ? nullptr : pk.p); break; }
    case 2: { name = "dp_sign_keypair_seed"; nullmask = 1 + g.u(7); Bytes s = g.rnd(160); Req r(name); pout(r, nullmask & 1, PKB); pout(r, nullmask & 2, SKB); pin(r, nullmask & 4, s); a = r.go(w);
      GBuf pk(PKB), sk(SKB), in(s); nat = crypto_sign_dilithium_ed25519_sphincs_keypair_seed(nullmask & 1 ? nullptr : pk.p, nullmask & 2 ? nullptr : sk.p, nullmask & 4 ? nullptr : in.p); break; }
    case 3: { name = "dp_seedexpander_wrapper"; nullmask = 1 + g.u(3); Bytes s = g.rnd(40); Req r(name); pin(r, nullmask & 1, s); r.num(40); pout(r, nullmask & 2, 80); r.num(80); a = r.go(w);
      GBuf in(s), o(80); nat = seedexpander_wrapper(nullmask & 1 ? nullptr : in.p, 40, nullmask & 2 ? nullptr : o.p, 80); break; }
    default: { name = "dp_sign_keypair"; nullmask = 1 + g.u(3); Req r(name); pout(r, nullmask & 1, PKB); pout(r, nullmask & 2, SKB); a = r.go(w); GBuf pk(PKB), sk(SKB); rng_seed(1); nat = crypto_sign_dilithium_ed25519_sphincs_keypair(nullmask & 1 ? nullptr : pk.p, nullmask & 2 ? nullptr : sk.p); break; }
  }
  CHECK(a.ok && a.rc == nat, "%s (null arguments %#x, message length %u) returns %s%d, natively %d", name, nullmask, ml, a.exc.c_str(), a.rc, nat);
  CHECK(nat != 0, "%s accepts null arguments %#x, message length %u", name, nullmask, ml);
  for (auto& o : a.outs) CHECK(std::all_of(o.begin(), o.end(), [](uint8_t c) { return c == 0xA5; }), "%s writes an output although it rejects its arguments (%d)", name, a.rc);
  g.label(name); g.nontrivial(hash64(std::string(name), nullmask * 131071ULL + ml)); g.desc("%s with null mask %#x, length %u -> %d", name, nullmask, ml, a.rc);
}
static void c25_mem(Gen& g) {
  unsigned w = g.u(2); bool ll = g.u(3) == 2; size_t n = ll ? g.len(1, 64, {8}) : g.u(6) == 5 ? g.len(1, 70000, {65536, 52406, 4064, 2590}) : g.len(1, 600, {1, 8, 32, 160}); Bytes d = g.bytes(n);
  std::string a = ask(w, strf("{\"mem\":1,\"fn\":\"%s\",\"size\":%zu,\"data\":\"", ll ? "mem_alloc_long_long" : "mem_alloc", n) + hx(d) + "\"}");
  CHECK(a == "ok", "%zu bytes from %s, released with mem_free: %s", n, ll ? "mem_alloc_long_long" : "mem_alloc", a.c_str());
  g.label(ll ? "mem_alloc_long_long" : "mem_alloc"); if (std::any_of(d.begin(), d.end(), [](uint8_t c) { return c; })) g.nontrivial(hash64(d)); g.desc("allocate, fill and release %zu bytes", n);
}
REGISTER {
  reg("C25", "keypair", c25_key).on("wasm", 120, 4000);
  reg("C25", "sign", c25_sign).on("wasm", 1000, 20000);
  reg("C25", "verify", c25_verify).on("wasm", 2000, 50000);
  reg("C25", "seed", c25_seed).on("wasm", 4000, 150000);
  reg("C25", "random", c25_random).on("wasm", 4000, 150000);
  reg("C25", "badargs", c25_bad).on("wasm", 2000, 50000);
  reg("C25", "memory", c25_mem).on("wasm", 4000, 150000);
};
