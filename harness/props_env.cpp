// C07-C11: key generation from seeds, seed expansion, randomness.
#include <sys/mman.h>
#include "hy.h"
#include "ops.h"
#include <algorithm>
#include <cerrno>
static Bytes sl(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }

// ------------------------------------------------------------------------------------------ C07
static void same_key(const Key& want, const Bytes& pk, const Bytes& sk, const char* what) {
  static const struct { const char* n; bool pub; size_t o, l; } f[] = {{"Ed25519 public key", true, 0, 32}, {"Dilithium public key", true, 32, 1312}, {"SPHINCS+ public key", true, 1344, 64},
    {"Ed25519 secret key", false, 0, 64}, {"Dilithium secret key", false, 64, 2560}, {"embedded Dilithium public key", false, 2624, 1312}, {"SPHINCS+ secret key", false, 3936, 128}};
  for (auto& x : f) { const Bytes &a = x.pub ? pk : sk, &b = x.pub ? want.pk : want.sk; CHECK(std::equal(a.begin() + x.o, a.begin() + x.o + x.l, b.begin() + x.o), "%s: the %s differs from the reference", what, x.n); }
  CHECK(pk == want.pk && sk == want.sk, "%s: keys differ from the reference", what);
}
static void c07(Gen& g) {
  Bytes seed; unsigned kind = g.u(4);
  if (kind == 0) seed = g.bytes(160);
  else if (kind == 1) { Bytes a = g.bytes(32), b = g.bytes(32), c = g.bytes(96); seed = a; seed.insert(seed.end(), b.begin(), b.end()); seed.insert(seed.end(), c.begin(), c.end()); }
  else if (kind == 2) { seed = g.rnd(160); }
  else { seed = g.bytes(160); for (unsigned i = 0; i < 32; i++) if (g.u(2)) seed[32 + i] = seed[i]; std::copy(seed.begin(), seed.begin() + 32, seed.begin() + 64 + 32 * g.u(3)); }
  bool left = g.u(4) == 3; Bytes pk, sk;
  CHECK(lib_keypair_seed(seed, &pk, &sk, left) == 0, "seeded key generation failed for seed %s", hex(seed, 160).c_str());
  same_key(hyr_keypair(seed), pk, sk, strf("seed %s", hex(seed, 160).c_str()).c_str());
  g.label(strf("kind%u", kind)); g.nontrivial(hash64(seed)); g.desc("seed %s (kind %u) -> pk %s", hex(seed, 16).c_str(), kind, hex(pk, 8).c_str());
}
// metamorphic: one altered byte changes exactly the component it belongs to
static void c07_pos(Gen& g) {
  size_t p = g.sweep(160); Bytes seed = g.u(2) ? g.rnd(160) : g.bytes(160), s2 = seed; s2[p] ^= g.u(2) ? 1u << g.u(8) : 1 + g.u(255);
  Bytes pk, sk, pk2, sk2, pk3, sk3;
  CHECK(lib_keypair_seed(seed, &pk, &sk) == 0 && lib_keypair_seed(s2, &pk2, &sk2) == 0, "seeded key generation failed");
  int comp = p < 32 ? 0 : p < 64 ? 1 : 2;
  for (int i = 0; i < 3; i++) {
    size_t po[] = {0, 32, 1344, 1408}, so[] = {0, 64, 3936, 4064};
    bool dp = !std::equal(pk.begin() + po[i], pk.begin() + po[i + 1], pk2.begin() + po[i]), ds = !std::equal(sk.begin() + so[i], sk.begin() + so[i + 1], sk2.begin() + so[i]);
    if (i == comp && i == 2 && p >= 96 && p < 128) { CHECK(ds, "changing seed byte %zu does not change the SPHINCS+ secret key", p); CHECK(!dp, "changing seed byte %zu changed the SPHINCS+ public key", p); continue; }   // the PRF key is secret only
    if (i == comp) CHECK(dp && ds, "changing seed byte %zu does not change component %d", p, i);
    else CHECK(!dp && !ds, "changing seed byte %zu changed component %d", p, i);
  }
  if (g.u(4) == 0) { CHECK(lib_keypair_seed(seed, &pk3, &sk3) == 0 && pk3 == pk && sk3 == sk, "the same seed gave two different key pairs"); }
  g.label(strf("component%d", comp)); g.nontrivial(hash64(s2, hash64(seed))); g.desc("seed %s altered at byte %zu", hex(seed, 8).c_str(), p);
}

// ------------------------------------------------------------------------------------------ C08
static Bytes lib_expand(const Bytes& s) {
  GBuf in(s), out(160); int rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(in, out);
  CHECK(rc == 0, "seed expansion failed with %d", rc); CHECK(in.is(s), "seed expansion modified its input"); out.check("expanded seed"); return out.get();
}
static Bytes ref_expand(const Bytes& s, bool doc) { Bytes o(160); ref::hy_expand_seed(s.data(), o.data(), doc); return o; }
// Known finding odd-seed-bytes: the library uses only the even-indexed bytes of the first 64.  A fixed probe seed decides
// which of the two functions the library implements; every other seed must then follow that function exactly.
static bool expander_is_documented() {
  Bytes p(96); Prng(mix64(4242)).fill(p.data(), 96); Bytes o = lib_expand(p);
  if (o == ref_expand(p, true)) return true;
  CHECK(o == ref_expand(p, false), "seed expansion of %s gives %s: neither the documented result nor the one recorded as a known finding", hex(p, 96).c_str(), hex(o, 160).c_str());
  return false;
}
static void c08(Gen& g) {
  bool doc = expander_is_documented(); if (!doc) g.label("KNOWN odd-seed-bytes");
  Bytes s; switch (g.u(3)) { case 0: s = g.bytes(96); break; case 1: s = g.bytes(64); { Bytes t = g.bytes(32); s.insert(s.end(), t.begin(), t.end()); } break; default: s = g.rnd(96); s[g.sweep(96)] = g.u(256); }
  Bytes o = lib_expand(s), w = ref_expand(s, doc);
  for (int i = 0; i < 160; i++) CHECK(o[i] == w[i], "seed expansion of %s: byte %d (%s portion) is wrong", hex(s, 96).c_str(), i, i < 32 ? "Ed25519" : i < 64 ? "Dilithium" : "SPHINCS+");
  g.label(doc ? "documented" : "even bytes only"); g.nontrivial(hash64(s)); g.desc("seed %s -> %s", hex(s, 24).c_str(), hex(o, 8).c_str());
}
static void c08_pos(Gen& g) {
  bool doc = expander_is_documented(); if (!doc) g.label("KNOWN odd-seed-bytes");
  size_t p = g.sweep(96); Bytes s = g.u(2) ? g.bytes(96) : g.rnd(96), t = s; t[p] ^= g.u(2) ? 1u << g.u(8) : 1 + g.u(255);
  Bytes a = lib_expand(s), b = lib_expand(t); bool ignored = !doc && p < 64 && (p & 1);
  if (ignored) CHECK(a == b, "seed byte %zu matters although the recorded finding says it is ignored", p);
  else CHECK(a != b, "seed byte %zu does not influence the result (seed %s)", p, hex(s, 96).c_str());
  if (p >= 64) for (int i = 0; i < 160; i++) CHECK((a[i] != b[i]) == (i == 32 + (int)p - 64), "changing seed byte %zu changed (or did not change) result byte %d", p, i);
  g.nontrivial(hash64(t, hash64(s))); g.desc("seed %s altered at byte %zu: %s", hex(s, 8).c_str(), p, a == b ? "same (known finding)" : "different");
}

// ------------------------------------------------------------------------------------------ C09
// windows of one call must not overlap; with a chosen (structured) stream several places match, so this is only required of random streams
static bool window(const Bytes& served, const uint8_t* p, size_t n, std::vector<uint8_t>& used, bool mark = true) {
  if (served.size() < n) return false;
  for (size_t o = 0; o + n <= served.size(); o++) if (!memcmp(served.data() + o, p, n)) { bool free_ = true; if (rng_env.queue.empty()) for (size_t i = 0; i < n; i++) if (used[o + i]) free_ = false; if (!free_) continue; if (mark) for (size_t i = 0; i < n; i++) used[o + i] = 1; return true; }
  return false;
}
static bool dil_window(const Bytes& served, const uint8_t* pk, std::vector<uint8_t>& used, Bytes& seed) {
  std::vector<size_t> order; for (size_t o : {size_t(32), size_t(0)}) if (o + 32 <= served.size()) order.push_back(o); for (size_t o = 0; o + 32 <= served.size(); o++) order.push_back(o);
  std::vector<Bytes> tried;
  for (size_t o : order) {
    bool free_ = true; if (rng_env.queue.empty()) for (size_t i = 0; i < 32; i++) if (used[o + i]) free_ = false; if (!free_) continue;
    Bytes s = sl(served, o, 32); if (std::find(tried.begin(), tried.end(), s) != tried.end()) continue; tried.push_back(s);
    Bytes p(1312), k(2560); B::dil_keypair(s.data(), p.data(), k.data()); if (!memcmp(p.data(), pk, 1312)) { for (size_t i = 0; i < 32; i++) used[o + i] = 1; seed = s; return true; }
  }
  return false;
}
static bool R_from(const Bytes& sk, const Bytes& opt, const Bytes& m, const uint8_t* R) {
  uint8_t r[32];
  if (kIdeal) { Bytes s(SPXS); B::spx_sign(sk.data(), opt.data(), m.data(), m.size(), s.data()); memcpy(r, s.data(), 32); } else ref::spx::message_random(sk.data(), opt.data(), m.data(), m.size(), r);
  return !memcmp(r, R, 32);
}
static void c09_call(Gen& g, const Call& c, const Out& o, const Bytes& served) {
  const char* nm = op_name[c.op]; std::vector<uint8_t> used(served.size()); const Bytes& d = o.data;
  CHECK(!rng_env.insecure, "%s: asked the kernel for possibly uninitialised randomness (GRND_INSECURE)", nm);
  switch (c.op) {
    case OP_KEYRAND: {
      const uint8_t* sk = d.data() + PKB; Bytes ed(sk, sk + 32), sp(sk + SK_SPX, sk + SK_SPX + 96), di;
      CHECK(served.size() >= 160, "%s: only %zu random bytes were drawn for a 160-byte seed", nm, served.size());
      CHECK(window(served, sp.data(), 96, used), "%s: the SPHINCS+ seed in the key is not made of 96 fresh random bytes of this call", nm);
      CHECK(window(served, ed.data(), 32, used), "%s: the Ed25519 seed in the key is not made of 32 fresh random bytes of this call", nm);
      CHECK(dil_window(served, d.data() + PK_DIL, used, di), "%s: the Dilithium key does not come from 32 fresh random bytes of this call", nm);
      Bytes s = ed; s.insert(s.end(), di.begin(), di.end()); s.insert(s.end(), sp.begin(), sp.end()); same_key(hyr_keypair(s), sl(d, 0, PKB), sl(d, PKB, SKB), nm); break; }
    case OP_CSIGN: { const uint8_t* nonce = d.data() + 2 + 64 + DILS; CHECK(window(served, nonce, 40, used), "%s: the nonce %s is not 40 contiguous fresh random bytes of this call (%zu drawn)", nm, hex(nonce, 40, 40).c_str(), served.size()); break; }
    case OP_FSIGN: case OP_SSIGN: {
      Bytes sk = c.op == OP_FSIGN ? sl(c.key, SK_SPX, 128) : c.key; const uint8_t* R = d.data() + (c.op == OP_FSIGN ? 2 + 64 + c.msg.size() + DILS : 0); bool ok = false;
      for (size_t w = 0; w + 32 <= served.size() && !ok; w++) ok = R_from(sk, sl(served, w, 32), c.msg, R);
      CHECK(ok, "%s: the signature randomiser is not derived from 32 fresh random bytes of this call (%zu drawn)", nm, served.size()); break; }
    case OP_DKEY: { Bytes di; CHECK(dil_window(served, d.data(), used, di), "%s: the key does not come from 32 fresh random bytes", nm); break; }
    case OP_SKEY: CHECK(window(served, d.data() + 64, 96, used), "%s: the seed is not 96 fresh random bytes", nm); { Bytes pk(64), sk(128); B::spx_keypair(d.data() + 64, pk.data(), sk.data()); CHECK(!memcmp(pk.data(), d.data(), 64), "%s: the public key does not belong to the seed", nm); } break;
    case OP_EKEY: CHECK(window(served, d.data() + 32, 32, used), "%s: the seed is not 32 fresh random bytes", nm); { Bytes pk(32), sk(64); B::ed_keypair(d.data() + 32, pk.data(), sk.data()); CHECK(!memcmp(pk.data(), d.data(), 32), "%s: the public key does not belong to the seed", nm); } break;
    case OP_BKEY: CHECK(window(served, d.data() + 32, 32, used), "%s: the secret key is not 32 fresh random bytes", nm); break;
    case OP_RANDOM: CHECK(d == served, "%s: the bytes are not those of the random source", nm); break;
    default: break;
  }
  (void)g;
}
static std::vector<RngStep> benign_plan(Gen& g, unsigned maxn) { std::vector<RngStep> p; unsigned n = g.u(maxn + 1); for (unsigned i = 0; i < n; i++) { unsigned w = g.u(3); if (w == 0) p.push_back({RNG_EINTR, 0, 0}); else if (w == 1) p.push_back({RNG_SHORT, g.u(200), 0}); else p.push_back({RNG_SHORT, 0, 0}); } return p; }
static void c09(Gen& g) {
  static const std::vector<OpId> full = {OP_KEYRAND, OP_CSIGN, OP_FSIGN, OP_DKEY, OP_SKEY, OP_SSIGN, OP_EKEY, OP_BKEY, OP_RANDOM, OP_CSIGN, OP_CSIGN}, ideal = {OP_KEYRAND, OP_CSIGN, OP_FSIGN, OP_RANDOM}, cheap = {OP_CSIGN, OP_EKEY, OP_DKEY, OP_BKEY, OP_SKEY, OP_KEYRAND};
  unsigned n = kIdeal ? 1 + g.u(g.u(8) == 0 ? 300 : 12) : 1 + g.u(g.u(4) == 0 ? 40 : 6); bool light = !kIdeal && g.u(4) != 0; uint64_t h = 0;
  rng_seed(g.u64()); Bytes prev;
  for (unsigned i = 0; i < n; i++) {
    Call c = gen_call(g, kIdeal ? ideal : light ? cheap : full);
    rng_env.plan = g.u(3) == 0 ? benign_plan(g, 8) : std::vector<RngStep>(); rng_env.pos = 0; rng_env.served.clear(); rng_env.log.clear(); rng_env.queue.clear(); rng_env.qpos = 0;
    if (g.u(4) == 0) rng_queue(g.bytes(c.op == OP_KEYRAND ? 160 : c.op == OP_CSIGN ? 40 : 32));
    Alloc a; a.guard = true; Out o = run_call(c, a); CHECK(o.rc == 0, "%s failed with %d although the random source only delivered short reads and interruptions", op_name[c.op], o.rc);
    c09_call(g, c, o, rng_env.served); g.label(op_name[c.op]); h = hash64(o.data, h);
  }
  g.nontrivial(h); g.desc("%u operations", n);
}

// ------------------------------------------------------------------------------------------ C10
extern "C" { int randombytes_sys(void*, size_t); int randombytes_dev(void*, size_t);
// other platforms' configurations, over stand-in headers: absent if the code no longer compiles over them
__attribute__((weak)) int randombytes_win(void*, size_t); __attribute__((weak)) int randombytes_bsd(void*, size_t); __attribute__((weak)) int randombytes_wasi(void*, size_t); }
typedef int (*rb_fn)(void*, size_t);
static bool subsequence(const uint8_t* p, size_t n, const Bytes& s) { size_t j = 0; for (size_t i = 0; i < n; i++) { while (j < s.size() && s[j] != p[i]) j++; if (j == s.size()) return false; j++; } return true; }
static void check_rb(const char* what, rb_fn f, size_t n, bool must, bool left) {
  GBuf b(n, 0xA5, left); int rc = f(b, n); b.check("random"); const Bytes& s = rng_env.served;
  CHECK(!rng_env.insecure, "%s: asked for possibly uninitialised randomness", what);
  CHECK(dev_env.open_count() == 0, "%s: %ld file descriptors were left open (result %d)", what, dev_env.open_count(), rc);
  CHECK(dev_env.unexpected == 0, "%s: opened something that is not the random device", what);
  if (must) CHECK(rc == 0, "%s: a request for %zu bytes failed with %d although the source only delivered short or interrupted results", what, n, rc);
  if (rc == 0) CHECK((s.size() == n && (n == 0 || !memcmp(s.data(), b.p, n))) || subsequence(b, n, s), "%s: success reported for %zu bytes, but the buffer is not filled with bytes of the operating system (served %zu)", what, n, s.size());
}
static size_t rb_size(Gen& g) { return g.len(0, 5000, {1, 32, 40, 96, 160, 255, 256, 257, 512, 1024, 4096}); }
static int hard(Gen& g) { static const int e[] = {EIO, ENOSYS, EFAULT, EINVAL, EPERM, ENOMEM, EBADF, EACCES}; if (g.u(3)) return e[g.u(8)]; int x = 1 + g.u(133); return x == EINTR || x == EAGAIN ? EIO : x; }
static void c10_get(Gen& g) {
  bool sys = g.u(2); size_t n = rb_size(g); rng_seed(g.u64()); bool hostile = g.u(2); unsigned k = g.u(12);
  for (unsigned i = 0; i < k; i++) { unsigned w = g.u(hostile ? 5 : 4); rng_env.plan.push_back(w == 0 ? RngStep{RNG_EINTR, 0, 0} : w == 1 ? RngStep{RNG_SHORT, 0, 0} : w == 2 ? RngStep{RNG_SHORT, g.u(300), 0} : w == 3 ? RngStep{RNG_SHORT, n > 1 ? n - 2 : 0, 0} : RngStep{RNG_ERR, 0, g.u(6) == 5 ? EAGAIN : hard(g)}); }
  if (hostile && g.u(4) == 0) rng_env.rest = {RNG_ERR, 0, hard(g)};
  if (g.u(8) == 0) { unsigned many = 100 + g.u(2000); for (unsigned i = 0; i < many; i++) rng_env.plan.push_back({RNG_EINTR, 0, 0}); }
  rng_env.scribble = g.u(2);
  check_rb(sys ? "system call source" : "getrandom source", sys ? randombytes_sys : randombytes, n, !hostile, g.u(4) == 3);
  if (!hostile) CHECK(rng_env.log.size() >= (n ? 1 : 0), "no request was made");
  g.label(strf("%s%s", sys ? "syscall" : "getrandom", hostile ? "/errors" : "/interruptions")); g.nontrivial(hash64(&n, 8, hash64(&k, 4, mix64(rng_env.log.size() * 977 + rng_env.plan.size() + (hostile ? 1 << 20 : 0) + rng_env.src.s[0])))); g.desc("%s: %zu bytes, %zu planned faults, %zu requests made", sys ? "syscall" : "getrandom", n, rng_env.plan.size(), rng_env.log.size());
}
static void c10_big(Gen& g) {
  static const size_t base[] = {33554431, 33554432, 33554430, 67108862, 67108863, 16777216, 65536, 1048576}; unsigned w = g.u(3); size_t n = base[g.sweep(8)]; n += g.u(3); rng_seed(g.u64());
  if (g.u(2)) { rng_env.plan.push_back({RNG_EINTR, 0, 0}); rng_env.plan.push_back({RNG_SHORT, g.u(1u << 25), 0}); rng_env.plan.push_back({RNG_SHORT, g.u(1u << 25), 0}); }
  dev_env.active = true;
  check_rb(w == 0 ? "getrandom source" : w == 1 ? "system call source" : "/dev/urandom source", w == 0 ? randombytes : w == 1 ? randombytes_sys : randombytes_dev, n, true, false);
  g.label("large"); g.nontrivial(mix64(n * 4 + w) ^ rng_env.src.s[0]); g.desc("source %u: %zu bytes", w, n);
}
static void c10_dev(Gen& g) {
  size_t n = rb_size(g); rng_seed(g.u64()); DevEnv& d = dev_env; d.active = true; bool hostile = g.u(2); if (unsigned b = g.u(3)) d.base = b == 1 ? 0 : 3;
  auto seq = [&](std::vector<int>& v, unsigned maxn, std::vector<int> benign, int hard_odds) { unsigned k = g.u(maxn + 1); for (unsigned i = 0; i < k; i++) { if (hostile && hard_odds && g.u(hard_odds) == 0) v.push_back(hard(g)); else if (!benign.empty()) v.push_back(benign[g.u(benign.size())]); } };
  seq(d.open_err, 4, {EINTR}, 5); unsigned strat = g.u(3);
  if (strat == 1) d.ioctl_err.push_back(g.u(2) ? ENOTTY : ENOSYS); else if (hostile && g.u(4) == 0) { d.ioctl_err.push_back(g.u(2) ? 0 : hard(g)); d.ioctl_err.push_back(hard(g)); }
  unsigned low = g.u(5); if (g.u(2)) low = 0; for (unsigned i = 0; i < low; i++) d.entropy.push_back(g.u(128)); d.entropy.push_back(128 + g.u(4000));
  seq(d.poll_err, 4, {EINTR, EAGAIN}, 5); if (strat == 1) { seq(d.proc_err, 3, {EINTR}, 5); if (hostile && g.u(4) == 0) d.proc_open_err.push_back(hard(g)); if (hostile && g.u(3) == 0) { unsigned k = 1 + g.u(3); for (unsigned i = 0; i < k; i++) d.proc_text.push_back(g.u(3)); d.text_rest = g.u(3); } }
  unsigned k = g.u(10); for (unsigned i = 0; i < k; i++) { unsigned w = g.u(hostile ? 6 : 4); DevEnv::Rd r{0, 0, false}; switch (w) { case 0: r.err = EINTR; break; case 1: r.err = EAGAIN; break; case 2: r.n = 1; break; case 3: r.n = 1 + g.u(300); break; case 4: r.err = hard(g); break; default: r.eof = true; } d.reads.push_back(r); }
  if (hostile && g.u(4) == 0) { d.rest.eof = g.u(2); if (!d.rest.eof) d.rest.err = hard(g); }
  if (hostile && g.u(6) == 0) d.close_err.push_back(hard(g));
  check_rb("/dev/urandom source", randombytes_dev, n, !hostile, g.u(4) == 3);
  g.label(strf("/dev/urandom%s%s%s", hostile ? "/errors" : "/interruptions", strat == 1 ? "/proc" : "", low ? "/low-entropy" : "")); g.nontrivial(hash64(&n, 8, mix64(d.calls * 131 + d.reads.size() + rng_env.src.s[0]))); g.desc("/dev/urandom: %zu bytes, %u device calls, hostile %d", n, d.calls, hostile);
}

static void c10_other(Gen& g) {
  unsigned w = g.u(4); size_t n = rb_size(g); rng_seed(g.u64()); rb_fn f = w < 2 ? randombytes_win : w == 2 ? randombytes_bsd : randombytes_wasi; const char* nm = w < 2 ? "Windows source" : w == 2 ? "BSD source" : "WASI source";
  if (!f) { g.label(strf("%s does not compile over the stand-ins", nm)); g.discard(); }
  WinEnv& e = win_env; bool first = true, second = true;
  if (w < 2) { if (g.u(4)) { e.gen1_fail_from = g.u(3) ? 0 : g.u(3); first = false; } if (g.u(3) == 0) e.acquire_fail = true; if (g.u(3) == 0) e.gen2_fail_from = g.u(2); if (g.u(5) == 0) e.release_fail = true; e.scribble = g.u(2); second = !e.acquire_fail && e.gen2_fail_from < 0; }
  GBuf b(n, 0xA5, g.u(4) == 3); int rc = f(b, n); b.check("random"); const Bytes& s = rng_env.served; bool used1 = e.gen1_fail_from >= 0 && e.gen1 > e.gen1_fail_from;
  CHECK(e.handles == 0, "%s: %ld handles were left open (result %d)", nm, e.handles, rc); CHECK(e.bad == 0, "%s: an invalid handle was used", nm);
  if (first) CHECK(rc == 0, "%s: a request for %zu bytes failed with %d although the system delivers", nm, n, rc);
  if (n && used1 && !second && e.gen2 <= 0) CHECK(rc != 0, "%s: success reported although every generator of the system failed", nm);
  if (rc == 0) CHECK((s.size() == n && (n == 0 || !memcmp(s.data(), b.p, n))) || subsequence(b, n, s), "%s: success reported for %zu bytes, but the buffer is not filled with bytes of the operating system (served %zu)", nm, n, s.size());
  g.label(strf("%s%s", nm, first ? "" : second ? "/fallback" : "/failing")); g.nontrivial(hash64(&n, 8, mix64(rng_env.src.s[0] + w * 3 + e.gen1_fail_from * 16 + e.gen2_fail_from * 64 + e.acquire_fail * 256 + e.release_fail * 512))); g.desc("%s: %zu bytes, first generator fails from call %d, second from %d -> %d", nm, n, e.gen1_fail_from, e.gen2_fail_from, rc);
}
// requests beyond 2^31 and 2^32 bytes
static void c10_huge(Gen& g) {
  static const size_t base[] = {(size_t)1 << 32, ((size_t)1 << 32) + 4096, (size_t)1 << 31, (((size_t)1 << 32) - 33554431)}; unsigned i = g.sweep(16), w = i & 3; size_t n = base[i >> 2] + g.u(4); rng_seed(g.u64()); rng_env.pattern = true; dev_env.active = true;
  rb_fn f = w == 0 ? randombytes : w == 1 ? randombytes_sys : w == 2 ? randombytes_dev : randombytes_win; const char* nm = w == 0 ? "getrandom source" : w == 1 ? "system call source" : w == 2 ? "/dev/urandom source" : "Windows source"; if (!f) g.discard();
  if (w == 2 && g.u(2)) { DevEnv::Rd r{0, 1 + g.u(1u << 31), false}; dev_env.reads.push_back(r); }
  size_t map = (n + 4095) / 4096 * 4096 + 4096; uint8_t* p = (uint8_t*)mmap(nullptr, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) g.discard();
  int rc = f(p, n); size_t bad = n; if (rc == 0) for (size_t k = 0; k < n;) { uint64_t v; if (k + 8 <= n && (memcpy(&v, p + k, 8), v == 0xEEEEEEEEEEEEEEEEull)) { k += 8; continue; } if (p[k] != 0xEE) { bad = k; break; } k++; }
  bool over = false; for (size_t k = n; k < map; k++) if (p[k]) over = true;
  munmap(p, map);
  CHECK(rc == 0, "%s: a request for %zu bytes failed with %d although the system delivers", nm, n, rc);
  CHECK(bad == n, "%s: success reported for %zu bytes, but byte %zu does not come from the operating system", nm, n, bad); CHECK(!over, "%s: a request for %zu bytes wrote beyond them", nm, n);
  g.label(nm); g.nontrivial(mix64(n * 4 + w)); g.desc("%s: %zu bytes", nm, n);
}

// ------------------------------------------------------------------------------------------ C11
static void c11(Gen& g) {
  std::vector<OpId> ops; for (OpId o : ops_all(true)) if (op_draws(o)) ops.push_back(o);
  std::vector<OpId> one = {ops[g.sweep(ops.size())]}; Call c = gen_call(g, one);
  size_t need = c.op == OP_KEYRAND ? 160 : c.op == OP_SKEY ? 96 : c.op == OP_CSIGN ? 40 : c.op == OP_RANDOM ? c.extra[0] : 32;
  rng_seed(c.rng); rng_env.plan = g.u(2) ? benign_plan(g, 4) : std::vector<RngStep>(); if (g.u(3) == 0) rng_env.plan.push_back({RNG_SHORT, need > 1 ? need - 2 : 0, 0});
  int e = hard(g); rng_env.plan.push_back({RNG_ERR, 0, e}); if (g.u(2)) rng_env.rest = {RNG_ERR, 0, e}; rng_env.scribble = g.u(2);
  if (g.u(4) == 0) rng_queue(g.bytes(need));
  Alloc a; a.guard = true; a.fill = g.u(3) == 0 ? 0 : 0xA5; heap_env.poison = g.u(2) ? 0xD3 : 0; Out o = run_call(c, a);
  unsigned errs = 0; for (auto& r : rng_env.log) errs += r.ret < 0 && r.err != EINTR; size_t got = rng_env.served.size();
  if (errs) CHECK(o.rc != 0, "%s reported success although the random source failed (error %d after %zu of %zu bytes)", op_name[c.op], e, got, need);
  else { g.label("not reached"); if (c.op != OP_RANDOM || need) CHECK(got >= need, "%s drew only %zu random bytes", op_name[c.op], got); }
  // afterwards the same operation works and gives the reference result
  if (!op_heavy(c.op) || kIdeal || g.u(6) == 0) { rng_seed(c.rng); Alloc a2; a2.guard = true; Out o2 = run_call(c, a2), w = expect_call(c); CHECK(o2.rc == 0 && o2.data == w.data, "%s gives a wrong result after an earlier failure of the random source (rc %d)", op_name[c.op], o2.rc); g.label("retried"); }
  g.label(op_name[c.op]); if (errs) g.nontrivial(mix64(c.op * 131 + rng_env.plan.size()) ^ hash64(c.msg, c.rng)); g.desc("%s: error %d after %zu random bytes -> rc %d", op_name[c.op], e, got, o.rc);
}
// sequences in which some of the calls meet a failing source
static void c11_seq(Gen& g) {
  std::vector<OpId> ops; for (OpId o : ops_all(kIdeal)) if (op_draws(o)) ops.push_back(o);
  unsigned n = 2 + g.u(kIdeal ? 12 : 4); uint64_t h = 0; std::string t;
  for (unsigned i = 0; i < n; i++) {
    Call c = gen_call(g, ops); rng_seed(c.rng); bool bad = g.u(2); if (bad) { unsigned k = g.u(3); for (unsigned j = 0; j < k; j++) rng_env.plan.push_back({RNG_SHORT, g.u(40), 0}); rng_env.plan.push_back({RNG_ERR, 0, hard(g)}); }
    Alloc a; a.guard = true; Out o = run_call(c, a); unsigned errs = 0; for (auto& r : rng_env.log) errs += r.ret < 0 && r.err != EINTR;
    if (errs) CHECK(o.rc != 0, "%s (call %u of a sequence) reported success although the random source failed", op_name[c.op], i + 1);
    else if (!bad) { Out w = expect_call(c); CHECK(o.rc == 0 && o.data == w.data, "%s (call %u of a sequence with failures of the random source) gives a wrong result (rc %d)", op_name[c.op], i + 1, o.rc); }
    h = hash64(&c.rng, 8, h * 31 + c.op * 2 + bad); t += strf("%s%s ", op_name[c.op], errs ? "!" : "");
  }
  g.nontrivial(h); g.desc("%s", t.c_str());
}
REGISTER {
#ifndef IDEAL
  reg("C07", "reference", c07).on("rel", 1200, 60000).on("asan", 60, 2000).guided("cov", 300, 10000);
  reg("C07", "positions", c07_pos).on("rel", 640, 16000);
  reg("C08", "reference", c08).on("rel", 400000, 8000000).on("asan", 20000, 100000).guided("cov", 200000, 4000000);
  reg("C08", "positions", c08_pos).on("rel", 96000, 960000);
  reg("C09", "histories", c09).on("rel", 400, 16000);
  reg("C10", "getrandom", c10_get).on("rel", 400000, 8000000).on("asan", 60000, 800000).guided("cov", 100000, 2000000);
  reg("C10", "urandom", c10_dev).on("rel", 400000, 8000000).on("asan", 60000, 800000).guided("cov", 100000, 2000000);
  reg("C10", "large", c10_big).on("rel", 24, 200).maxworkers(4);
  reg("C10", "other-platforms", c10_other).on("rel", 200000, 4000000).on("asan", 40000, 400000).guided("cov", 40000, 400000);
  reg("C10", "huge", c10_huge).on("rel", 8, 48).maxworkers(2);
  reg("C11", "each-draw", c11).on("rel", 1600, 60000).on("asan", 160, 4000);
  reg("C11", "sequences", c11_seq).on("rel", 400, 16000);
#else
  reg("C07", "reference", c07).on("ideal", 20000, 300000).guided("ideal", 40000, 800000);
  reg("C09", "histories", c09).on("ideal", 40000, 300000).guided("ideal", 10000, 300000);
  reg("C11", "each-draw", c11).on("ideal", 60000, 300000).guided("ideal", 60000, 300000);
  reg("C11", "sequences", c11_seq).on("ideal", 10000, 200000);
#endif
};
