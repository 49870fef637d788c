#include "ops.h"
#include <algorithm>
const char* op_name[] = {"keypair_seed", "keypair", "compact sign", "compact open", "compact verify", "full sign", "full open", "full verify", "seed_expander", "seedexpander_wrapper", "verify_dilithium",
  "dilithium keypair", "dilithium sign", "dilithium open", "sphincs keypair", "sphincs sign", "sphincs open", "ed25519 keypair", "ed25519 sign", "ed25519 open", "box keypair", "box", "secretbox", "sha512", "shake256", "sha3_512", "xsalsa20", "x25519", "incremental hash", "poly1305", "randombytes"};
bool op_draws(OpId o) { return o == OP_KEYRAND || o == OP_CSIGN || o == OP_FSIGN || o == OP_DKEY || o == OP_SKEY || o == OP_SSIGN || o == OP_EKEY || o == OP_BKEY || o == OP_RANDOM; }
bool op_heavy(OpId o) { return o == OP_FSIGN || o == OP_SSIGN; }
std::vector<OpId> ops_all(bool heavy) { std::vector<OpId> v; for (int i = 0; i < OP_COUNT; i++) { if (kIdeal && i > OP_VDIL && i != OP_RANDOM) continue; if (!kIdeal && !heavy && op_heavy((OpId)i)) continue; v.push_back((OpId)i); } return v; }

static Bytes sl(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
static Bytes cat2(const Bytes& a, const Bytes& b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
// keys that share parts with each other: same prefix or suffix, different rest
static Key rel_key(Gen& g) {
  Key a = pool_key(g.u(3)); if (g.u(2)) return a; Key b = pool_key(3 + g.u(2)); unsigned w = g.u(6);
  if (w & 1) { std::copy(b.pk.begin(), b.pk.begin() + 32, a.pk.begin()); std::copy(b.sk.begin(), b.sk.begin() + 64, a.sk.begin()); }
  if (w & 2) { std::copy(b.pk.begin() + PK_DIL, b.pk.begin() + PK_SPX, a.pk.begin() + PK_DIL); std::copy(b.sk.begin() + SK_DIL, b.sk.begin() + SK_SPX, a.sk.begin() + SK_DIL); }
  if (w & 4) { std::copy(b.pk.begin() + PK_SPX, b.pk.end(), a.pk.begin() + PK_SPX); std::copy(b.sk.begin() + SK_SPX, b.sk.end(), a.sk.begin() + SK_SPX); }
  return a;
}
static Bytes tiny_damage(Gen& g, Bytes b) { if (b.empty()) return b; size_t p = g.u(3) == 0 ? b.size() - 1 - g.u(std::min<size_t>(b.size(), 64)) : g.u(b.size()); b[p] ^= 1u << g.u(8); return b; }
struct FullCache { Key k; Bytes m, sig; };
static const FullCache& full_cached(unsigned i) {
  static std::map<unsigned, FullCache> c; auto it = c.find(i); if (it != c.end()) return it->second; FullCache f; unsigned ki = i % 2; f.k = pool_key(ki); f.sig = pool_full_sig(ki, i / 2, &f.m); return c.emplace(i, f).first->second;
}
unsigned op_forms(OpId o) {
  switch (o) {
    case OP_DSIGN: case OP_DOPEN: case OP_SSIGN: case OP_SOPEN: return 2;      // attached, detached
    case OP_BOX: return 4; case OP_SECRETBOX: return 2;                        // seal, open; one call, key agreement first
    case OP_SHAKE: return 2; case OP_SHA3: return 3; case OP_STREAM: return 4; case OP_POLY: return 2; case OP_INCR: return 7;
    default: return 1;
  }
}
static void box_key(const Call& c, uint8_t k[32]) { if (c.op == OP_SECRETBOX) { memcpy(k, c.key.data(), 32); return; } uint8_t z[16] = {0}, sh[32]; ref::x25519(sh, c.key.data() + 32, c.key.data()); ref::core_hsalsa20(k, z, sh, (const uint8_t*)"expand 32-byte k"); }
static void box_input(Gen& g, Call& c, bool bad) { uint8_t k[32]; msan_unpoison(k, 32); box_key(c, k); msan_unpoison(k, 32); Bytes b(c.msg.size()); ref::secretbox(b.data(), c.msg.data(), b.size(), c.extra.data(), k); if (bad) b[16 + g.u(b.size() - 16)] ^= 1u << g.u(8); c.msg = b; }
Call gen_call(Gen& g, const std::vector<OpId>& allowed) {
  Call c; c.op = allowed[g.u(allowed.size())]; c.rng = g.u64(); c.form = g.u(op_forms(c.op)); c.good = true; bool bad = g.u(3) == 2;
  auto anymsg = [&]() { return g.bytes(g.len(0, 200, {32, 64, 128, 136})); };
  switch (c.op) {
    case OP_KEYSEED: { if (kIdeal || g.u(2)) c.key = g.bytes(160); else { c.key.resize(160); Prng(mix64(g.u(3) + 31)).fill(c.key.data(), 160); if (g.u(2)) c.key[g.u(160)] ^= 1u << g.u(8); } break; }
    case OP_KEYRAND: case OP_DKEY: case OP_SKEY: case OP_EKEY: case OP_BKEY: break;
    case OP_CSIGN: case OP_FSIGN: { Key k = rel_key(g); c.key = k.sk; c.msg = gen_msg(g); break; }
    case OP_COPEN: case OP_CVERIFY: { Key k = rel_key(g); c.msg = gen_msg(g); c.key = k.pk; c.sig = hyr_sign_compact(k, c.msg, g.rnd(40)); if (bad) { unsigned w = g.u(3); if (w == 0) c.sig = tiny_damage(g, c.sig); else if (w == 1) c.key = tiny_damage(g, c.key); else c.key = rel_key(g).pk; } break; }
    case OP_FOPEN: case OP_FVERIFY: { if (kIdeal) { Key k = rel_key(g); c.msg = gen_msg(g); c.key = k.pk; c.sig = hyr_sign_full(k, c.msg, g.rnd(32)); } else { const FullCache& f = full_cached(g.u(4)); c.key = f.k.pk; c.msg = f.m; c.sig = f.sig; } if (bad) { unsigned w = g.u(3); if (w == 0) c.sig = tiny_damage(g, c.sig); else if (w == 1) c.key = tiny_damage(g, c.key); else c.sig[g.u(2) ? 2 + g.u(64) : c.sig.size() - 1 - g.u(2000)] ^= 1; } break; }
    case OP_EXPAND: c.key = g.bytes(96); break;
    case OP_WRAP: c.key = g.bytes(32 + g.u(100)); c.extra.resize(2); { unsigned n = c.key.size() + 1 + g.u(300); c.extra[0] = n & 255; c.extra[1] = n >> 8; } break;
    case OP_VDIL: { Key k = rel_key(g); c.msg = gen_msg(g); c.key = sl(k.pk, PK_DIL, 1312); c.sig = dil_sig(k, c.msg); if (bad) { if (g.u(2)) c.sig = tiny_damage(g, c.sig); else c.key = tiny_damage(g, c.key); } break; }
    case OP_DSIGN: { c.key = sl(rel_key(g).sk, SK_DIL, 2560); c.msg = anymsg(); break; }
    case OP_DOPEN: { Key k = rel_key(g); c.msg = anymsg(); c.key = sl(k.pk, PK_DIL, 1312); c.sig = dil_sig(k, c.msg); if (bad) { if (g.u(2)) c.sig = tiny_damage(g, c.sig); else c.key = tiny_damage(g, c.key); } break; }
    case OP_SSIGN: { c.key = sl(rel_key(g).sk, SK_SPX, 128); c.msg = anymsg(); break; }
    case OP_SOPEN: { const FullCache& f = full_cached(g.u(4)); c.key = sl(f.k.pk, PK_SPX, 64); c.msg = f.m; c.sig = split_full(f.sig).spx; if (bad) { if (g.u(2)) c.sig = tiny_damage(g, c.sig); else c.key = tiny_damage(g, c.key); } break; }
    case OP_ESIGN: { c.key = sl(rel_key(g).sk, 0, 64); c.msg = anymsg(); break; }
    case OP_EOPEN: { Key k = rel_key(g); c.msg = anymsg(); c.key = sl(k.pk, 0, 32); c.sig = ed_sig(k, c.msg); if (bad) { c.sig = tiny_damage(g, c.sig); } break; }
    case OP_BOX: c.key = cat2(g.bytes(32), g.bytes(32)); c.extra = g.bytes(24); c.msg = anymsg(); c.msg.insert(c.msg.begin(), 32, 0); if (c.form & 1) box_input(g, c, bad); break;
    case OP_SECRETBOX: c.key = g.bytes(32); c.extra = g.bytes(24); c.msg = anymsg(); c.msg.insert(c.msg.begin(), 32, 0); if (c.form) box_input(g, c, bad); break;
    case OP_SHA512: case OP_SHAKE: case OP_SHA3: c.msg = anymsg(); break;
    case OP_POLY: c.key = g.bytes(32); c.msg = anymsg(); break;
    case OP_STREAM: c.key = g.bytes(32); c.extra = g.bytes(24); c.msg = anymsg(); break;
    case OP_X25519: c.key = g.bytes(32); c.msg = g.bytes(32); break;
    case OP_INCR: c.msg = anymsg(); c.extra = g.bytes(3); break;
    case OP_RANDOM: c.extra.resize(1); c.extra[0] = g.u(200); break;
    default: break;
  }
  if (!c.sig.empty()) { g.splice(c.sig); g.splice(c.key); }
  return c;
}

namespace {
struct Bufs {                        // hands out buffers according to the Alloc
  Alloc& a; const Call& c; std::vector<GBuf> own; std::vector<Bytes> heap; std::vector<std::pair<uint8_t*, size_t>> outs;
  Bufs(Alloc& a_, const Call& c_) : a(a_), c(c_) { own.reserve(12); heap.reserve(12); a.pos = 0; }
  ~Bufs() { for (auto& o : outs) msan_unpoison(o.first, o.second); }
  uint8_t* raw(size_t n) { if (a.base) { uint8_t* p = a.base + a.pos; a.pos += (n + 127) / 64 * 64; if (a.pos > a.cap) failf("harness: arena too small"); return p; } heap.emplace_back(n + 1); return heap.back().data(); }
  uint8_t* in(const Bytes& b) { if (a.direct && (&b == &c.key || &b == &c.msg || &b == &c.sig || &b == &c.extra)) return (uint8_t*)b.data(); if (a.guard) { own.emplace_back(b, true, a.left); msan_unpoison(own.back().p, b.size()); return own.back().p; } uint8_t* p = raw(b.size()); if (b.size()) memcpy(p, b.data(), b.size()); msan_unpoison(p, b.size()); return p; }
  uint8_t* out(size_t n) { uint8_t* p; if (a.guard) { own.emplace_back(n, a.fill, a.left); p = own.back().p; } else { p = raw(n); memset(p, a.fill, n); } outs.push_back({p, n}); msan_poison(p, n); return p; }
  void check(Out& o) { for (auto& b : own) b.check("an argument"); if (a.raw) for (auto& x : outs) o.raw.insert(o.raw.end(), x.first, x.first + x.second); }
};
void put(Bytes& o, const uint8_t* p, size_t n) { msan_check(p, n); o.insert(o.end(), p, p + n); }
}
static Out run_call_(const Call& c, Alloc& al) {
  Bufs b(al, c); Out o; o.rc = -999; size_t n = c.msg.size(); uint8_t* ln = b.out(8); ull* l = (ull*)ln; size_t* zl = (size_t*)ln;
  switch (c.op) {
    case OP_KEYSEED: case OP_KEYRAND: { uint8_t *pk = b.out(PKB), *sk = b.out(SKB); o.rc = c.op == OP_KEYSEED ? crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk, sk, b.in(c.key)) : crypto_sign_dilithium_ed25519_sphincs_keypair(pk, sk); if (o.rc == 0) { put(o.data, pk, PKB); put(o.data, sk, SKB); } break; }
    case OP_CSIGN: { uint8_t* s = b.out(COMPX + n); o.rc = crypto_sign_compact_dilithium_ed25519_sphincs(s, l, b.in(c.msg), n, b.in(c.key)); if (o.rc == 0) { put(o.data, s, COMPX + n); put(o.data, ln, 8); } break; }
    case OP_FSIGN: { uint8_t* s = b.out(FULLX + n); o.rc = crypto_sign_dilithium_ed25519_sphincs(s, l, b.in(c.msg), n, b.in(c.key)); if (o.rc == 0) { put(o.data, s, FULLX + n); put(o.data, ln, 8); } break; }
    case OP_COPEN: case OP_FOPEN: { uint8_t* m = b.out(n); o.rc = (c.op == OP_COPEN ? crypto_sign_compact_dilithium_ed25519_sphincs_open : crypto_sign_dilithium_ed25519_sphincs_open)(m, l, b.in(c.sig), c.sig.size(), b.in(c.key)); if (o.rc == 0) { put(o.data, m, n); put(o.data, ln, 8); } break; }
    case OP_CVERIFY: case OP_FVERIFY: o.rc = (c.op == OP_CVERIFY ? crypto_verify_compact_dilithium_ed25519_sphincs : crypto_verify_dilithium_ed25519_sphincs)(b.in(c.msg), n, b.in(c.sig), c.sig.size(), b.in(c.key)); break;
    case OP_EXPAND: { uint8_t* e = b.out(160); o.rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(b.in(c.key), e); put(o.data, e, 160); break; }
    case OP_WRAP: { size_t ol = c.extra[0] + 256 * c.extra[1]; uint8_t* e = b.out(ol); o.rc = seedexpander_wrapper(b.in(c.key), c.key.size(), e, ol); put(o.data, e, ol); break; }
    case OP_VDIL: o.rc = crypto_verify_dilithium(b.in(c.msg), n, b.in(c.sig), c.sig.size(), b.in(c.key)); break;
    case OP_DKEY: { uint8_t *pk = b.out(1312), *sk = b.out(2560); o.rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair(pk, sk); if (o.rc == 0) { put(o.data, pk, 1312); put(o.data, sk, 2560); } break; }
    case OP_DSIGN: { size_t x = c.form ? 0 : n; uint8_t* s = b.out(DILS + x); o.rc = (c.form ? PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature : PQCLEAN_DILITHIUM2_CLEAN_crypto_sign)(s, zl, b.in(c.msg), n, b.in(c.key)); if (o.rc == 0) { put(o.data, s, DILS + x); put(o.data, ln, 8); } break; }
    case OP_DOPEN: { if (c.form) { o.rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(b.in(c.sig), DILS, b.in(c.msg), n, b.in(c.key)); break; } uint8_t* m = b.out(n); o.rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(m, zl, b.in(cat2(c.sig, c.msg)), DILS + n, b.in(c.key)); if (o.rc == 0) { put(o.data, m, n); put(o.data, ln, 8); } break; }
    case OP_SKEY: { uint8_t *pk = b.out(64), *sk = b.out(128); o.rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair(pk, sk); if (o.rc == 0) { put(o.data, pk, 64); put(o.data, sk, 128); } break; }
    case OP_SSIGN: { size_t x = c.form ? 0 : n; uint8_t* s = b.out(SPXS + x); o.rc = (c.form ? PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature : PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign)(s, zl, b.in(c.msg), n, b.in(c.key)); if (o.rc == 0) { put(o.data, s, SPXS + x); put(o.data, ln, 8); } break; }
    case OP_SOPEN: { if (c.form) { o.rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(b.in(c.sig), SPXS, b.in(c.msg), n, b.in(c.key)); break; } uint8_t* m = b.out(n); o.rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(m, zl, b.in(cat2(c.sig, c.msg)), SPXS + n, b.in(c.key)); if (o.rc == 0) { put(o.data, m, n); put(o.data, ln, 8); } break; }
    case OP_EKEY: { uint8_t *pk = b.out(32), *sk = b.out(64); o.rc = crypto_sign_ed25519_tweet_keypair(pk, sk); if (o.rc == 0) { put(o.data, pk, 32); put(o.data, sk, 64); } break; }
    case OP_ESIGN: { uint8_t* s = b.out(64 + n); o.rc = crypto_sign_ed25519_tweet(s, l, b.in(c.msg), n, b.in(c.key)); if (o.rc == 0) { put(o.data, s, 64 + n); put(o.data, ln, 8); } break; }
    case OP_EOPEN: { uint8_t* m = b.out(64 + n); o.rc = crypto_sign_ed25519_tweet_open(m, l, b.in(cat2(c.sig, c.msg)), 64 + n, b.in(c.key)); if (o.rc == 0) { put(o.data, m, n); put(o.data, ln, 8); } break; }
    case OP_BKEY: { uint8_t *pk = b.out(32), *sk = b.out(32); o.rc = crypto_box_curve25519xsalsa20poly1305_tweet_keypair(pk, sk); if (o.rc == 0) { put(o.data, pk, 32); put(o.data, sk, 32); } break; }
    case OP_BOX: {
      uint8_t* e = b.out(n); uint8_t *m = b.in(c.msg), *nn = b.in(c.extra), *pk = b.in(sl(c.key, 0, 32)), *sk = b.in(sl(c.key, 32, 32));
      if (c.form < 2) o.rc = (c.form ? crypto_box_curve25519xsalsa20poly1305_tweet_open : crypto_box_curve25519xsalsa20poly1305_tweet)(e, m, n, nn, pk, sk);
      else { uint8_t* k = b.out(32); o.rc = crypto_box_curve25519xsalsa20poly1305_tweet_beforenm(k, pk, sk); put(o.data, k, 32); msan_params(); if (o.rc == 0) o.rc = (c.form == 3 ? crypto_box_curve25519xsalsa20poly1305_tweet_open_afternm : crypto_box_curve25519xsalsa20poly1305_tweet_afternm)(e, m, n, nn, k); }
      if (o.rc == 0) put(o.data, e, n); else o.data.clear(); break;
    }
    case OP_SECRETBOX: { uint8_t* e = b.out(n); o.rc = (c.form ? crypto_secretbox_xsalsa20poly1305_tweet_open : crypto_secretbox_xsalsa20poly1305_tweet)(e, b.in(c.msg), n, b.in(c.extra), b.in(c.key)); if (o.rc == 0) put(o.data, e, n); break; }
    case OP_SHA512: { uint8_t* e = b.out(64); o.rc = crypto_hash_sha512_tweet(e, b.in(c.msg), n); put(o.data, e, 64); break; }
    case OP_SHAKE: { uint8_t* e = b.out(150); (c.form ? shake128 : shake256)(e, 150, b.in(c.msg), n); o.rc = 0; put(o.data, e, 150); break; }
    case OP_SHA3: { size_t x = c.form == 0 ? 64 : c.form == 1 ? 48 : 32; uint8_t* e = b.out(x); (c.form == 0 ? sha3_512 : c.form == 1 ? sha3_384 : sha3_256)(e, b.in(c.msg), n); o.rc = 0; put(o.data, e, x); break; }
    case OP_STREAM: { uint8_t* e = b.out(n); uint8_t *nn = c.form & 2 ? b.in(sl(c.extra, 0, 8)) : b.in(c.extra), *k = b.in(c.key); switch (c.form) { case 0: o.rc = crypto_stream_xsalsa20_tweet_xor(e, b.in(c.msg), n, nn, k); break; case 1: o.rc = crypto_stream_xsalsa20_tweet(e, n, nn, k); break; case 2: o.rc = crypto_stream_salsa20_tweet_xor(e, b.in(c.msg), n, nn, k); break; default: o.rc = crypto_stream_salsa20_tweet(e, n, nn, k); } put(o.data, e, n); break; }
    case OP_X25519: { uint8_t* e = b.out(32); o.rc = crypto_scalarmult_curve25519_tweet(e, b.in(c.key), b.in(c.msg)); put(o.data, e, 32); break; }
    case OP_POLY: { uint8_t* e = b.out(16); if (c.form == 0) o.rc = crypto_onetimeauth_poly1305_tweet(e, b.in(c.msg), n, b.in(c.key)); else { Bytes t(16); ref::poly1305(t.data(), c.msg.data(), n, c.key.data()); if (c.rng & 1) t[c.rng / 2 % 16] ^= 1 << c.rng / 64 % 8; o.rc = crypto_onetimeauth_poly1305_tweet_verify(b.in(t), b.in(c.msg), n, b.in(c.key)); break; } put(o.data, e, 16); break; }
    case OP_INCR: {
      kctx k, k2; uint8_t* m = b.in(c.msg); size_t s = n ? c.extra[0] % (n + 1) : 0, q = c.extra[1] % 100; o.rc = 0;
      if (c.form < 2) {
        uint8_t* e = b.out(200); (c.form ? shake128_inc_init : shake256_inc_init)(&k); auto ab = c.form ? shake128_inc_absorb : shake256_inc_absorb; auto fi = c.form ? shake128_inc_finalize : shake256_inc_finalize; auto sq = c.form ? shake128_inc_squeeze : shake256_inc_squeeze; auto rl = c.form ? shake128_inc_ctx_release : shake256_inc_ctx_release;
        msan_params(); ab(&k, m, s); msan_params(); (c.form ? shake128_inc_ctx_clone : shake256_inc_ctx_clone)(&k2, &k); msan_params(); ab(&k, m + s, n - s); msan_params(); fi(&k); msan_params(); fi(&k2); msan_params(); sq(e, q, &k); msan_params(); sq(e + q, 100 - q, &k); msan_params(); sq(e + 100, 100, &k2); msan_params(); rl(&k); msan_params(); rl(&k2); put(o.data, e, 200);
      } else if (c.form < 5) {
        unsigned f = c.form - 2; size_t x = f == 0 ? 32 : f == 1 ? 48 : 64; uint8_t* e = b.out(2 * x); auto ab = f == 0 ? sha3_256_inc_absorb : f == 1 ? sha3_384_inc_absorb : sha3_512_inc_absorb; auto fi = f == 0 ? sha3_256_inc_finalize : f == 1 ? sha3_384_inc_finalize : sha3_512_inc_finalize;
        (f == 0 ? sha3_256_inc_init : f == 1 ? sha3_384_inc_init : sha3_512_inc_init)(&k); msan_params(); ab(&k, m, s); msan_params(); (f == 0 ? sha3_256_inc_ctx_clone : f == 1 ? sha3_384_inc_ctx_clone : sha3_512_inc_ctx_clone)(&k2, &k); msan_params(); ab(&k, m + s, n - s); msan_params(); fi(e, &k); msan_params(); fi(e + x, &k2); put(o.data, e, 2 * x);
        if (c.extra[2] & 1) { msan_params(); (f == 0 ? sha3_256_inc_init : f == 1 ? sha3_384_inc_init : sha3_512_inc_init)(&k); msan_params(); (f == 0 ? sha3_256_inc_ctx_release : f == 1 ? sha3_384_inc_ctx_release : sha3_512_inc_ctx_release)(&k); }
      } else {
        bool w = c.form == 5; size_t r = w ? 168 : 136; uint8_t* e = b.out(3 * r); auto sq = w ? shake128_squeezeblocks : shake256_squeezeblocks; auto rl = w ? shake128_ctx_release : shake256_ctx_release;
        (w ? shake128_absorb : shake256_absorb)(&k, m, n); msan_params(); sq(e, 1, &k); msan_params(); (w ? shake128_ctx_clone : shake256_ctx_clone)(&k2, &k); msan_params(); sq(e + r, 1, &k); msan_params(); sq(e + 2 * r, 1, &k2); msan_params(); rl(&k); msan_params(); rl(&k2); put(o.data, e, 3 * r);
      }
      break;
    }
    case OP_RANDOM: { uint8_t* e = b.out(c.extra[0]); o.rc = randombytes(e, c.extra[0]); if (o.rc == 0) put(o.data, e, c.extra[0]); break; }
    default: break;
  }
  b.check(o); return o;
}
Out run_call(const Call& c, Alloc& al) { struct In { In() { msan_harness(false); } ~In() { msan_harness(true); } } in; return run_call_(c, al); }
static void le8(Bytes& o, uint64_t v) { for (int i = 0; i < 8; i++) o.push_back(v >> (8 * i)); }
static bool unbox(const Call& c, const uint8_t k[32], Bytes& o) {                     // the message of a box, or false
  size_t n = c.msg.size(); Bytes st(n); uint8_t t[16]; ref::xsalsa20_stream(st.data(), n, c.extra.data(), k); ref::poly1305(t, c.msg.data() + 32, n - 32, st.data()); msan_unpoison(t, 16); if (memcmp(t, c.msg.data() + 16, 16)) return false;
  o.assign(n, 0); for (size_t i = 32; i < n; i++) o[i] = c.msg[i] ^ st[i]; return true;
}
Out expect_call(const Call& c) {
  Out o; o.rc = 0; size_t n = c.msg.size(); Bytes rnd(200); Prng(mix64(c.rng ^ 0x726e67)).fill(rnd.data(), rnd.size());   // same stream as rng_seed(c.rng)
  auto verdict = [&](bool ok) { o.rc = ok ? 0 : -1; };
  switch (c.op) {
    case OP_KEYSEED: case OP_KEYRAND: { Key k = hyr_keypair(c.op == OP_KEYSEED ? c.key : sl(rnd, 0, 160)); o.data = cat2(k.pk, k.sk); break; }
    case OP_CSIGN: { Key k; k.sk = c.key; o.data = hyr_sign_compact(k, c.msg, sl(rnd, 0, 40)); le8(o.data, COMPX + n); break; }
    case OP_FSIGN: { Key k; k.sk = c.key; o.data = hyr_sign_full(k, c.msg, sl(rnd, 0, 32)); le8(o.data, FULLX + n); break; }
    case OP_COPEN: { verdict(hyr_open_compact(c.sig, c.key, &o.data)); if (o.rc) o.data.clear(); else le8(o.data, n); break; }
    case OP_FOPEN: { verdict(hyr_open_full(c.sig, c.key, &o.data)); if (o.rc) o.data.clear(); else le8(o.data, n); break; }
    case OP_CVERIFY: { Bytes m; verdict(hyr_open_compact(c.sig, c.key, &m) && m == c.msg); break; }
    case OP_FVERIFY: { Bytes m; verdict(hyr_open_full(c.sig, c.key, &m) && m == c.msg); break; }
    case OP_EXPAND: { o.data.resize(160); static int mode = -1; if (mode < 0) { uint8_t s[96], e[160]; memset(s, 0x5b, 96); Bytes r(160); ref::hy_expand_seed(s, r.data(), true); msan_unpoison(s, 96); msan_params(); crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(s, e); mode = !memcmp(e, r.data(), 160); } ref::hy_expand_seed(c.key.data(), o.data.data(), mode); break; }   // either form: see C08
    case OP_WRAP: { Bytes s = c.key; s.push_back(2); o.data = ref::shake256v(s, c.extra[0] + 256 * c.extra[1]); break; }
    case OP_VDIL: verdict(B::dil_verify(c.key.data(), c.msg.data(), n, c.sig.data())); break;
    case OP_DKEY: { Bytes pk(1312), sk(2560); B::dil_keypair(rnd.data(), pk.data(), sk.data()); o.data = cat2(pk, sk); break; }
    case OP_DSIGN: { o.data.resize(DILS); B::dil_sign(c.key.data(), c.msg.data(), n, o.data.data()); if (!c.form) o.data = cat2(o.data, c.msg); le8(o.data, o.data.size()); break; }
    case OP_DOPEN: verdict(B::dil_verify(c.key.data(), c.msg.data(), n, c.sig.data())); if (!o.rc && !c.form) { o.data = c.msg; le8(o.data, n); } break;
    case OP_SKEY: { Bytes pk(64), sk(128); B::spx_keypair(rnd.data(), pk.data(), sk.data()); o.data = cat2(pk, sk); break; }
    case OP_SSIGN: { o.data.resize(SPXS); B::spx_sign(c.key.data(), rnd.data(), c.msg.data(), n, o.data.data()); if (!c.form) o.data = cat2(o.data, c.msg); le8(o.data, o.data.size()); break; }
    case OP_SOPEN: verdict(B::spx_verify(c.key.data(), c.msg.data(), n, c.sig.data())); if (!o.rc && !c.form) { o.data = c.msg; le8(o.data, n); } break;
    case OP_EKEY: { Bytes pk(32), sk(64); B::ed_keypair(rnd.data(), pk.data(), sk.data()); o.data = cat2(pk, sk); break; }
    case OP_ESIGN: { o.data.resize(64); B::ed_sign(c.key.data(), c.msg.data(), n, o.data.data()); o.data = cat2(o.data, c.msg); le8(o.data, 64 + n); break; }
    case OP_EOPEN: verdict(B::ed_verify(c.key.data(), c.msg.data(), n, c.sig.data())); if (!o.rc) { o.data = c.msg; le8(o.data, n); } break;
    case OP_BKEY: { Bytes pk(32), b9(32); b9[0] = 9; ref::x25519(pk.data(), rnd.data(), b9.data()); o.data = cat2(pk, sl(rnd, 0, 32)); break; }
    case OP_BOX: case OP_SECRETBOX: {
      uint8_t k[32]; msan_unpoison(k, 32); box_key(c, k); msan_unpoison(k, 32); o.data.resize(n); if (c.form & 1) { o.rc = unbox(c, k, o.data) ? 0 : -1; if (o.rc) { o.data.clear(); break; } } else ref::secretbox(o.data.data(), c.msg.data(), n, c.extra.data(), k);
      if (c.op == OP_BOX && c.form >= 2) o.data = cat2(Bytes(k, k + 32), o.data); break;
    }
    case OP_SHA512: o.data.resize(64); ref::sha512(c.msg.data(), n, o.data.data()); break;
    case OP_SHAKE: o.data.resize(150); ref::sponge(c.form ? 168 : 136, 0x1f, c.msg.data(), n, o.data.data(), 150); break;
    case OP_SHA3: { size_t x = c.form == 0 ? 64 : c.form == 1 ? 48 : 32; o.data.resize(x); ref::sponge(200 - 2 * x, 6, c.msg.data(), n, o.data.data(), x); break; }
    case OP_STREAM: o.data.resize(n); if (c.form & 2) ref::salsa20_stream(o.data.data(), n, c.extra.data(), c.key.data()); else ref::xsalsa20_stream(o.data.data(), n, c.extra.data(), c.key.data()); if (!(c.form & 1)) for (size_t i = 0; i < n; i++) o.data[i] ^= c.msg[i]; break;
    case OP_POLY: if (c.form) verdict(!(c.rng & 1)); else { o.data.resize(16); ref::poly1305(o.data.data(), c.msg.data(), n, c.key.data()); } break;
    case OP_X25519: o.data.resize(32); ref::x25519(o.data.data(), c.key.data(), c.msg.data()); break;
    case OP_INCR: {
      size_t s = n ? c.extra[0] % (n + 1) : 0; auto sp = [&](size_t r, uint8_t suf, size_t len, size_t out) { Bytes e(out); ref::sponge(r, suf, c.msg.data(), len, e.data(), out); return e; };
      if (c.form < 2) { size_t r = c.form ? 168 : 136; o.data = cat2(sp(r, 0x1f, n, 100), sp(r, 0x1f, s, 100)); }
      else if (c.form < 5) { size_t x = c.form == 2 ? 32 : c.form == 3 ? 48 : 64; o.data = cat2(sp(200 - 2 * x, 6, n, x), sp(200 - 2 * x, 6, s, x)); }
      else { size_t r = c.form == 5 ? 168 : 136; Bytes e = sp(r, 0x1f, n, 2 * r); o.data = cat2(e, sl(e, r, r)); }
      break;
    }
    case OP_RANDOM: o.data = sl(rnd, 0, c.extra[0]); break;
    default: break;
  }
  return o;
}
