// C27: the sequence of basic blocks, load and store addresses does not depend on secret values.
// The library is built with -fsanitize-coverage=trace-pc,trace-loads,trace-stores; two runs on the same buffers, stack depth
// and (reset) heap arena with different contents must give the same trace.
#include "hy.h"
#include <algorithm>
#include <dlfcn.h>
#include <sys/mman.h>
static bool t_on = false, t_rec = false; static uint64_t t_hash, t_n; static std::vector<std::pair<uint8_t, uintptr_t>> t_log;
__attribute__((always_inline)) static inline void ev(uint8_t k, uintptr_t a) { if (!t_on) return; t_n++; t_hash = (t_hash ^ (a * 8 + k)) * 0x9E3779B97F4A7C15ULL; t_hash ^= t_hash >> 29; if (t_rec && t_log.size() < 60000000) t_log.push_back({k, a}); }
extern "C" {
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_pc() { ev(0, PC); }
#define LS(n) void __sanitizer_cov_load##n(void* p) { ev(1, (uintptr_t)p); } void __sanitizer_cov_store##n(void* p) { ev(2, (uintptr_t)p); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void* vf_memcpy(void* d, const void* s, size_t n) { ev(3, (uintptr_t)d); ev(3, (uintptr_t)s); ev(3, n); return memcpy(d, s, n); }
void* vf_memmove(void* d, const void* s, size_t n) { ev(3, (uintptr_t)d); ev(3, (uintptr_t)s); ev(3, n); return memmove(d, s, n); }
void* vf_memset(void* d, int c, size_t n) { ev(3, (uintptr_t)d); ev(3, n); return memset(d, c, n); }
}
void ct_memcmp(const void* a, const void* b, size_t n, size_t first_diff) { ev(4, (uintptr_t)a); ev(4, (uintptr_t)b); ev(4, n); ev(4, first_diff); }   // memcmp may stop at the first difference
extern uint8_t* ct_heap; extern size_t ct_heap_pos;
static uint8_t* area() { static uint8_t* a = (uint8_t*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return a; }
enum T { T_EDKEY, T_EDSIGN, T_X25519, T_X25519B, T_SEAL, T_OPEN, T_BOX, T_BOXOPEN, T_MAC, T_MACV, T_V16, T_V32, T_STREAM, T_SHA512, T_SHA3, T_SHAKE, T_EXPAND, T_SPXKEY, T_COUNT };
static const char* tn[] = {"ed25519 keypair", "ed25519 sign", "x25519", "x25519 base", "secretbox", "secretbox open", "box", "box open", "poly1305", "poly1305 verify", "verify_16", "verify_32", "xsalsa20", "sha512", "sha3_512", "shake256", "seed expander", "sphincs keypair"};
struct Slots { uint8_t *out, *in, *k, *k2, *n, *len; };
__attribute__((noinline)) static int go(T t, size_t n, Slots s) {
  ct_heap_pos = 0; t_hash = 1; t_n = 0; t_on = true; int rc = 0;
  switch (t) {
    case T_EDKEY: rc = crypto_sign_ed25519_keypair_seed(s.out, s.out + 64, s.k); break;
    case T_EDSIGN: rc = crypto_sign_ed25519_tweet(s.out, (ull*)s.len, s.in, n, s.k); break;
    case T_X25519: rc = crypto_scalarmult_curve25519_tweet(s.out, s.k, s.in); break;
    case T_X25519B: rc = crypto_scalarmult_curve25519_tweet_base(s.out, s.k); break;
    case T_SEAL: rc = crypto_secretbox_xsalsa20poly1305_tweet(s.out, s.in, n, s.n, s.k); break;
    case T_OPEN: rc = crypto_secretbox_xsalsa20poly1305_tweet_open(s.out, s.in, n, s.n, s.k); break;
    case T_BOX: rc = crypto_box_curve25519xsalsa20poly1305_tweet(s.out, s.in, n, s.n, s.k2, s.k); break;
    case T_BOXOPEN: rc = crypto_box_curve25519xsalsa20poly1305_tweet_open(s.out, s.in, n, s.n, s.k2, s.k); break;
    case T_MAC: rc = crypto_onetimeauth_poly1305_tweet(s.out, s.in, n, s.k); break;
    case T_MACV: rc = crypto_onetimeauth_poly1305_tweet_verify(s.k2, s.in, n, s.k); break;
    case T_V16: rc = crypto_verify_16_tweet(s.in, s.k); break;
    case T_V32: rc = crypto_verify_32_tweet(s.in, s.k); break;
    case T_STREAM: rc = crypto_stream_xsalsa20_tweet_xor(s.out, s.in, n, s.n, s.k); break;
    case T_SHA512: rc = crypto_hash_sha512_tweet(s.out, s.in, n); break;
    case T_SHA3: sha3_512(s.out, s.in, n); break;
    case T_SHAKE: shake256(s.out, 200, s.in, n); break;
    case T_EXPAND: rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(s.in, s.out); break;
    case T_SPXKEY: rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair(s.out, s.out + 64, s.in); break;
    default: break;
  }
  t_on = false; return rc;
}
static void put(uint8_t* p, const Bytes& b) { if (!b.empty()) memcpy(p, b.data(), b.size()); }
static void fill(Gen& g, T t, size_t n, Slots s, bool related, const Bytes* prev_in, const Bytes* prev_k) {
  auto val = [&](size_t l, const Bytes* prev) { if (related && prev && prev->size() == l && l) { Bytes b = *prev; unsigned k = 1 + g.u(3); for (unsigned i = 0; i < k; i++) b[g.u(l)] ^= 1u << g.u(8); return b; } return g.bytes(l); };
  Bytes k = val(t == T_EDSIGN ? 64 : 32, prev_k), in = val(t == T_SPXKEY || t == T_EXPAND ? 96 : t == T_X25519 || t == T_V16 || t == T_V32 ? 32 : n, prev_in), k2 = g.bytes(32), nn = g.bytes(24);
  if (t == T_EDSIGN) { Bytes pk(32), sk(64); ref::ed_keypair(k.data(), pk.data(), sk.data()); std::copy(pk.begin(), pk.end(), k.begin() + 32); }
  if (t == T_SEAL || t == T_BOX) memset(in.data(), 0, 32);
  if (t == T_OPEN) { memset(in.data(), 0, 32); Bytes c(n); ref::secretbox(c.data(), in.data(), n, nn.data(), k.data()); in = c; }
  if (t == T_BOXOPEN) { memset(in.data(), 0, 32); uint8_t z[16] = {0}, sh[32], kk[32]; ref::x25519(sh, k.data(), k2.data()); ref::core_hsalsa20(kk, z, sh, (const uint8_t*)"expand 32-byte k"); Bytes c(n); ref::secretbox(c.data(), in.data(), n, nn.data(), kk); in = c; }
  if (t == T_MACV) { uint8_t tag[16]; ref::poly1305(tag, in.data(), n, k.data()); memcpy(k2.data(), tag, 16); }   // valid: the verdict itself is public
  if ((t == T_V16 || t == T_V32)) { unsigned same = g.u(36); for (unsigned i = 0; i < same && i < 32; i++) k[i] = in[i]; }
  put(s.k, k); put(s.in, in); put(s.k2, k2); put(s.n, nn);
}
static Bytes get(uint8_t* p, size_t n) { return Bytes(p, p + n); }
static void c27(Gen& g, bool spx) {
  T t = spx ? T_SPXKEY : (T)g.sweep(T_SPXKEY); size_t n = g.len(0, 300, {32, 64, 111, 112, 128, 136, 72}); if (t == T_SEAL || t == T_OPEN || t == T_BOX || t == T_BOXOPEN) n += 32;
  uint8_t* a = area(); Slots s{a, a + 4096, a + 8192, a + 9216, a + 10240, a + 11264}; uint64_t h[2], c[2]; Bytes in, k; Bytes copy[2]; bool related = g.u(2); int verdict[2];
  for (int i = 0; i < 2; i++) {
    memset(a, 0, 16384); fill(g, t, n, s, i && related, &in, &k); copy[i] = get(a, 16384); if (!i) { in = get(s.in, t == T_SPXKEY || t == T_EXPAND ? 96 : t == T_X25519 || t == T_V16 || t == T_V32 ? 32 : n); k = get(s.k, t == T_EDSIGN ? 64 : 32); }
    int rc = verdict[i] = go(t, n, s); if (t != T_V16 && t != T_V32) CHECK(rc == 0, "%s failed with %d", tn[t], rc); h[i] = t_hash; c[i] = t_n;
  }
  if (verdict[0] != verdict[1]) g.discard();     // the outcome of a comparison is public
  if (t == T_EDSIGN || t == T_X25519) CHECK(c[0] > 1000, "harness: no trace recorded for %s (%llu events)", tn[t], (ull)c[0]);
  if (h[0] != h[1] || c[0] != c[1]) {
    std::vector<std::pair<uint8_t, uintptr_t>> l[2]; for (int i = 0; i < 2; i++) { memcpy(a, copy[i].data(), copy[i].size()); t_log.clear(); t_rec = true; go(t, n, s); t_rec = false; l[i].swap(t_log); }
    size_t d = 0; while (d < l[0].size() && d < l[1].size() && l[0][d] == l[1][d]) d++;
    size_t q = d; while (q > 0 && !(q < l[0].size() && l[0][q].first == 0)) q--;
    Dl_info di; memset(&di, 0, sizeof di); if (q < l[0].size()) dladdr((void*)l[0][q].second, &di);
    static const char* kn[] = {"branch", "load address", "store address", "block copy", "memcmp"};
    failf("%s with %zu-byte input: the execution trace depends on the secret contents (%llu and %llu events; first difference at event %zu, a %s in or after %s)", tn[t], n, (ull)c[0], (ull)c[1], d, d < l[0].size() ? kn[l[0][d].first] : "length", di.dli_sname ? di.dli_sname : "?");
  }
  g.label(tn[t]); g.nontrivial(hash64(copy[0], hash64(copy[1], t))); g.desc("%s, %zu bytes: two secrets, equal traces of %llu events", tn[t], n, (ull)c[0]);
}
static void c27_all(Gen& g) { c27(g, false); }
static void c27_spx(Gen& g) { c27(g, true); }
REGISTER {
  reg("C27", "traces", c27_all).on("ct", 3400, 200000);
  reg("C27", "traces-sphincs", c27_spx).on("ct", 32, 1000);
};
