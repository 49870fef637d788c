#include "hy.h"
#include <memory>

#ifndef IDEAL
namespace B {
void ed_keypair(const uint8_t s[32], uint8_t pk[32], uint8_t sk[64]) { ref::ed_keypair(s, pk, sk); }
void ed_sign(const uint8_t sk[64], const uint8_t* m, size_t n, uint8_t sig[64]) { ref::ed_sign(sk, m, n, sig); }
bool ed_verify(const uint8_t pk[32], const uint8_t* m, size_t n, const uint8_t sig[64]) { return ref::ed_verify(pk, m, n, sig, true); }
void dil_keypair(const uint8_t s[32], uint8_t* pk, uint8_t* sk) { ref::dil::keypair(s, pk, sk); }
void dil_sign(const uint8_t* sk, const uint8_t* m, size_t n, uint8_t* sig) { if (!ref::dil::sign(sk, m, n, sig)) failf("reference: no Dilithium signature within the attempt bound"); }
bool dil_verify(const uint8_t* pk, const uint8_t* m, size_t n, const uint8_t* sig) { return ref::dil::verify(pk, m, n, sig); }
void spx_keypair(const uint8_t s[96], uint8_t pk[64], uint8_t sk[128]) { ref::spx::keypair(s, pk, sk); }
void spx_sign(const uint8_t sk[128], const uint8_t o[32], const uint8_t* m, size_t n, uint8_t* sig) { ref::spx::sign(sk, o, m, n, sig); }
bool spx_verify(const uint8_t pk[64], const uint8_t* m, size_t n, const uint8_t* sig) { return ref::spx::verify(pk, m, n, sig, SPXS); }
}
#else
// Ideal components: every output is a keyed hash of everything it depends on; the "secret" is the public key
// fingerprint, which is enough because only the harness plays the adversary.
namespace {
void expand(uint64_t h, uint8_t* o, size_t n) { Prng r(h); r.fill(o, n); }
uint64_t H(int tag, const uint8_t* a, size_t an, const uint8_t* b = nullptr, size_t bn = 0, const uint8_t* c = nullptr, size_t cn = 0) { uint64_t h = hash64(a, an, 0x1000 + tag); h = hash64(b, bn, h); return hash64(c, cn, h); }
}
namespace B {
void ed_keypair(const uint8_t s[32], uint8_t pk[32], uint8_t sk[64]) { expand(H(1, s, 32), pk, 32); memcpy(sk, s, 32); memcpy(sk + 32, pk, 32); }
static void ed_raw(const uint8_t pk[32], const uint8_t* m, size_t n, uint8_t sig[64]) { expand(H(2, pk, 32, m, n), sig, 64); }
void ed_sign(const uint8_t sk[64], const uint8_t* m, size_t n, uint8_t sig[64]) { uint8_t pk[32], t[64]; ed_keypair(sk, pk, t); if (memcmp(pk, sk + 32, 32)) { expand(H(3, sk, 64, m, n), sig, 64); return; } ed_raw(pk, m, n, sig); }
bool ed_verify(const uint8_t pk[32], const uint8_t* m, size_t n, const uint8_t sig[64]) { uint8_t t[64]; ed_raw(pk, m, n, t); return !memcmp(t, sig, 64); }
void dil_keypair(const uint8_t s[32], uint8_t* pk, uint8_t* sk) { expand(H(4, s, 32), pk, 1312); uint64_t h = H(5, pk, 1312); expand(h ^ 1, sk, 2560); memcpy(sk, &h, 8); }
void dil_sign(const uint8_t* sk, const uint8_t* m, size_t n, uint8_t* sig) { uint64_t h; memcpy(&h, sk, 8); Bytes t(2560); expand(h ^ 1, t.data(), 2560); bool good = !memcmp(t.data() + 8, sk + 8, 2552); expand(good ? H(6, (uint8_t*)&h, 8, m, n) : H(7, sk, 2560, m, n), sig, DILS); }
bool dil_verify(const uint8_t* pk, const uint8_t* m, size_t n, const uint8_t* sig) { uint64_t h = H(5, pk, 1312); Bytes t(DILS); expand(H(6, (uint8_t*)&h, 8, m, n), t.data(), DILS); return !memcmp(t.data(), sig, DILS); }
void spx_keypair(const uint8_t s[96], uint8_t pk[64], uint8_t sk[128]) { memcpy(sk, s, 96); expand(H(8, s, 32, s + 64, 32), sk + 96, 32); memcpy(pk, sk + 64, 64); }
static void spx_raw(const uint8_t pk[64], const uint8_t R[32], const uint8_t* m, size_t n, uint8_t* sig) { memcpy(sig, R, 32); expand(H(9, pk, 64, R, 32, m, n), sig + 32, SPXS - 32); }
void spx_sign(const uint8_t sk[128], const uint8_t o[32], const uint8_t* m, size_t n, uint8_t* sig) { uint8_t R[32], root[32]; expand(H(10, sk + 32, 32, o, 32, m, n), R, 32); expand(H(8, sk, 32, sk + 64, 32), root, 32); if (memcmp(root, sk + 96, 32)) { memcpy(sig, R, 32); expand(H(11, sk, 128, R, 32, m, n), sig + 32, SPXS - 32); return; } spx_raw(sk + 64, R, m, n, sig); }
bool spx_verify(const uint8_t pk[64], const uint8_t* m, size_t n, const uint8_t* sig) { Bytes t(SPXS); spx_raw(pk, sig, m, n, t.data()); return !memcmp(t.data(), sig, SPXS); }
}
// entry points the hybrid objects are linked to (mock_ prefix added by objcopy)
extern "C" {
int mock_crypto_sign_ed25519_keypair_seed(unsigned char* pk, unsigned char* sk, unsigned char* seed) { B::ed_keypair(seed, pk, sk); return 0; }
int mock_crypto_sign_ed25519_tweet_keypair(unsigned char* pk, unsigned char* sk) { uint8_t s[32]; if (randombytes(s, 32) != 0) return -1; B::ed_keypair(s, pk, sk); return 0; }
int mock_crypto_sign_ed25519_tweet(unsigned char* sm, ull* smlen, const unsigned char* m, ull n, const unsigned char* sk) { uint8_t sig[64]; B::ed_sign(sk, m, n, sig); memmove(sm + 64, m, n); memcpy(sm, sig, 64); *smlen = n + 64; return 0; }
int mock_crypto_sign_ed25519_tweet_open(unsigned char* m, ull* mlen, const unsigned char* sm, ull n, const unsigned char* pk) {
  *mlen = -1; if (n < 64) return -1; bool ok = B::ed_verify(pk, sm + 64, n - 64, sm);
  if (!ok) { memset(m, 0, n - 64); return -1; } memmove(m, sm + 64, n - 64); *mlen = n - 64; return 0;
}
int mock_PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(uint8_t* pk, uint8_t* sk, const uint8_t* s) { B::dil_keypair(s, pk, sk); return 0; }
int mock_PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair(uint8_t* pk, uint8_t* sk) { uint8_t s[32]; if (randombytes(s, 32) != 0) return -1; B::dil_keypair(s, pk, sk); return 0; }
int mock_PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(uint8_t* sig, size_t* siglen, const uint8_t* m, size_t n, const uint8_t* sk) { B::dil_sign(sk, m, n, sig); *siglen = DILS; return 0; }
int mock_PQCLEAN_DILITHIUM2_CLEAN_crypto_sign(uint8_t* sm, size_t* smlen, const uint8_t* m, size_t n, const uint8_t* sk) { Bytes t(m, m + n), s(DILS); B::dil_sign(sk, t.data(), n, s.data()); memcpy(sm, s.data(), DILS); if (n) memcpy(sm + DILS, t.data(), n); *smlen = n + DILS; return 0; }
int mock_PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(const uint8_t* sig, size_t siglen, const uint8_t* m, size_t n, const uint8_t* pk) { if (siglen != DILS) return -1; return B::dil_verify(pk, m, n, sig) ? 0 : -1; }
int mock_PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(uint8_t* m, size_t* mlen, const uint8_t* sm, size_t n, const uint8_t* pk) { if (n < DILS) return -1; *mlen = n - DILS; if (!B::dil_verify(pk, sm + DILS, n - DILS, sm)) return -2; memmove(m, sm + DILS, n - DILS); return 0; }
int mock_PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair(uint8_t* pk, uint8_t* sk, const uint8_t* s) { B::spx_keypair(s, pk, sk); return 0; }
int mock_PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair(uint8_t* pk, uint8_t* sk) { uint8_t s[96]; if (randombytes(s, 96) != 0) return -1; B::spx_keypair(s, pk, sk); return 0; }
int mock_PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(uint8_t* sig, size_t* siglen, const uint8_t* m, size_t n, const uint8_t* sk) { uint8_t o[32]; if (randombytes(o, 32) != 0) return -1; B::spx_sign(sk, o, m, n, sig); *siglen = SPXS; return 0; }
int mock_PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(const uint8_t* sig, size_t siglen, const uint8_t* m, size_t n, const uint8_t* pk) { if (siglen != SPXS) return -1; return B::spx_verify(pk, m, n, sig) ? 0 : -1; }
int mock_PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(uint8_t* sm, size_t* smlen, const uint8_t* m, size_t n, const uint8_t* sk) { size_t l; Bytes s(SPXS); if (mock_PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(s.data(), &l, m, n, sk)) return -1; memmove(sm + SPXS, m, n); memcpy(sm, s.data(), SPXS); *smlen = SPXS + n; return 0; }
int mock_PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(uint8_t* m, size_t* mlen, const uint8_t* sm, size_t n, const uint8_t* pk) { *mlen = 0; if (n < SPXS) return -1; if (!B::spx_verify(pk, sm + SPXS, n - SPXS, sm)) return -1; memmove(m, sm + SPXS, n - SPXS); *mlen = n - SPXS; return 0; }
}
#endif

Key hyr_keypair(const Bytes& s) {
  Key k; k.pk.resize(PKB); k.sk.resize(SKB);
  B::ed_keypair(s.data(), k.pk.data(), k.sk.data());
  B::dil_keypair(s.data() + 32, k.pk.data() + PK_DIL, k.sk.data() + SK_DIL); memcpy(k.sk.data() + SK_DILPK, k.pk.data() + PK_DIL, 1312);
  B::spx_keypair(s.data() + 64, k.pk.data() + PK_SPX, k.sk.data() + SK_SPX);
  return k;
}
Bytes hyr_digest(const uint8_t* nonce, const uint8_t* m, size_t n, const uint8_t* spxpk) { Bytes o(64); ref::hy_digest(nonce, m, n, spxpk, o.data()); return o; }
Bytes join_full(const Bytes& m, const Bytes& ed, const Bytes& dil, const Bytes& spx) { Bytes s; s.push_back(2); s.push_back((uint8_t)m.size()); for (auto* v : {&ed, &m, &dil, &spx}) s.insert(s.end(), v->begin(), v->end()); return s; }
Bytes join_compact(const Bytes& m, const Bytes& ed, const Bytes& dil, const Bytes& nonce) { Bytes s; s.push_back(1); s.push_back((uint8_t)m.size()); for (auto* v : {&ed, &dil, &nonce, &m}) s.insert(s.end(), v->begin(), v->end()); return s; }
Parts split_full(const Bytes& s) { Parts p; size_t n = s.size() - FULLX; auto b = s.begin() + 2; p.ed.assign(b, b + 64); b += 64; p.m.assign(b, b + n); b += n; p.dil.assign(b, b + DILS); b += DILS; p.spx.assign(b, b + SPXS); return p; }
Parts split_compact(const Bytes& s) { Parts p; size_t n = s.size() - COMPX; auto b = s.begin() + 2; p.ed.assign(b, b + 64); b += 64; p.dil.assign(b, b + DILS); b += DILS; p.nonce.assign(b, b + NONCE); b += NONCE; p.m.assign(b, b + n); return p; }
Bytes ed_sig(const Key& k, const Bytes& m) { Bytes o(64); B::ed_sign(k.sk.data(), m.data(), m.size(), o.data()); return o; }
Bytes dil_sig(const Key& k, const Bytes& m) { Bytes o(DILS); B::dil_sign(k.sk.data() + SK_DIL, m.data(), m.size(), o.data()); return o; }
Bytes spx_sig(const Key& k, const Bytes& m, const Bytes& opt) { Bytes o(SPXS); B::spx_sign(k.sk.data() + SK_SPX, opt.data(), m.data(), m.size(), o.data()); return o; }
Bytes hyr_sign_full(const Key& k, const Bytes& m, const Bytes& opt) { return join_full(m, ed_sig(k, m), dil_sig(k, m), spx_sig(k, m, opt)); }
Bytes hyr_sign_compact(const Key& k, const Bytes& m, const Bytes& nonce) { Bytes d = hyr_digest(nonce.data(), m.data(), m.size(), k.sk.data() + SK_SPXPK); return join_compact(m, ed_sig(k, d), dil_sig(k, d), nonce); }
bool hyr_open_full(const Bytes& s, const Bytes& pk, Bytes* m) {
  if (s.size() < FULLX + 1 || s.size() > FULLX + 64 || s[0] != 2 || s[1] < 1 || s[1] > 64 || s.size() != (size_t)FULLX + s[1]) return false;
  Parts p = split_full(s);
  if (!B::ed_verify(pk.data(), p.m.data(), p.m.size(), p.ed.data()) || !B::dil_verify(pk.data() + PK_DIL, p.m.data(), p.m.size(), p.dil.data()) || !B::spx_verify(pk.data() + PK_SPX, p.m.data(), p.m.size(), p.spx.data())) return false;
  if (m) *m = p.m; return true;
}
bool hyr_open_compact(const Bytes& s, const Bytes& pk, Bytes* m) {
  if (s.size() < COMPX + 1 || s.size() > COMPX + 64 || s[0] != 1 || s[1] < 1 || s[1] > 64 || s.size() != (size_t)COMPX + s[1]) return false;
  Parts p = split_compact(s); Bytes d = hyr_digest(p.nonce.data(), p.m.data(), p.m.size(), pk.data() + PK_SPX);
  if (!B::ed_verify(pk.data(), d.data(), 64, p.ed.data()) || !B::dil_verify(pk.data() + PK_DIL, d.data(), 64, p.dil.data())) return false;
  if (m) *m = p.m; return true;
}

// ---------------------------------------------------------------------------------------------- generators
struct SpxK { Bytes pk, sk; };
static const SpxK& pool_spx(unsigned i) {
  static std::map<unsigned, SpxK> c; auto it = c.find(i); if (it != c.end()) return it->second;
  SpxK k; k.pk.resize(64); k.sk.resize(128); uint8_t s[96]; Prng(mix64(0x59ULL * 1000003 + i)).fill(s, 96); if (i == 1) memset(s, 0, 96); if (i == 2) memset(s + 64, 0xff, 32);
  B::spx_keypair(s, k.pk.data(), k.sk.data()); return c[i] = k;
}
static Key from_parts(const uint8_t* edseed, const uint8_t* dilseed, const SpxK& x) {
  Key k; k.pk.resize(PKB); k.sk.resize(SKB); B::ed_keypair(edseed, k.pk.data(), k.sk.data()); B::dil_keypair(dilseed, k.pk.data() + PK_DIL, k.sk.data() + SK_DIL);
  memcpy(k.sk.data() + SK_DILPK, k.pk.data() + PK_DIL, 1312); memcpy(k.sk.data() + SK_SPX, x.sk.data(), 128); memcpy(k.pk.data() + PK_SPX, x.pk.data(), 64); return k;
}
Key pool_key(unsigned i) {
  static std::map<unsigned, Key> c; auto it = c.find(i); if (it != c.end()) return it->second;
  uint8_t s[64]; Prng(mix64(i + 77)).fill(s, 64); return c[i] = from_parts(s, s + 32, pool_spx(i % 4));
}
Key gen_key(Gen& g) {
  if (g.u(3)) return pool_key(g.u(8));
  Bytes s = g.bytes(64); return from_parts(s.data(), s.data() + 32, pool_spx(g.u(4)));
}
Key gen_key_full(Gen& g) { Bytes s = g.bytes(160); return hyr_keypair(s); }
Bytes gen_msg(Gen& g) { return g.bytes(g.len(1, 64, {31, 32, 33, 40, 63, 64})); }
const Bytes& pool_full_sig(unsigned key, unsigned i, Bytes* m) {
  static std::map<uint64_t, std::pair<Bytes, Bytes>> c; uint64_t id = key * 1000 + i; auto it = c.find(id);
  if (it == c.end()) { Prng r(mix64(id ^ 0xabcdef)); static const unsigned lens[] = {1, 64, 32, 33, 17, 48, 2, 63}; Bytes mm(lens[i % 8]); r.fill(mm.data(), mm.size()); Bytes o(32); r.fill(o.data(), 32); it = c.emplace(id, std::make_pair(hyr_sign_full(pool_key(key), mm, o), mm)).first; }
  if (m) *m = it->second.second; return it->second.first;
}

// ---------------------------------------------------------------------------------------------- library calls
static void set_u64(GBuf& b, uint64_t v) { memcpy(b.p, &v, 8); }
static uint64_t get_u64(const GBuf& b) { uint64_t v; memcpy(&v, b.p, 8); return v; }
static const uint64_t LENMARK = 0xD7D7D7D7D7D7D7D7ULL;
OpenRes lib_open(Mode mode, const Bytes& sm, uint64_t smlen, const Bytes& pk, bool left) {
  GBuf s(sm, true, left), p(pk, true, left), m(64, 0xA5, left), ml(8); set_u64(ml, LENMARK);
  OpenRes r; r.rc = (mode == FULL ? crypto_sign_dilithium_ed25519_sphincs_open : crypto_sign_compact_dilithium_ed25519_sphincs_open)(m, (ull*)ml.p, s, smlen, p);
  m.check("message"); ml.check("message length"); CHECK(s.is(sm) && p.is(pk), "open modified an input");
  r.mlen = get_u64(ml); r.mlen_touched = r.mlen != LENMARK; r.m_touched = !m.all(0xA5); r.m = m.get();
  return r;
}
int lib_verify(Mode mode, const Bytes& m, uint64_t mlen, const Bytes& sm, uint64_t smlen, const Bytes& pk, bool left) {
  GBuf s(sm, true, left), p(pk, true, left), mm(m, true, left);
  int rc = (mode == FULL ? crypto_verify_dilithium_ed25519_sphincs : crypto_verify_compact_dilithium_ed25519_sphincs)(mm, mlen, s, smlen, p);
  CHECK(s.is(sm) && p.is(pk) && mm.is(m), "verify modified an input");
  return rc;
}
SignRes lib_sign(Mode mode, const Bytes& m, uint64_t mlen, const Bytes& sk, bool left) {
  size_t cap = (mode == FULL ? FULLX : COMPX) + (mlen >= 1 && mlen <= 64 ? mlen : 64);
  GBuf mm(m, true, left), k(sk, true, left), s(cap, 0xA5, left), sl(8); set_u64(sl, LENMARK);
  SignRes r; r.rc = (mode == FULL ? crypto_sign_dilithium_ed25519_sphincs : crypto_sign_compact_dilithium_ed25519_sphincs)(s, (ull*)sl.p, mm, mlen, k);
  s.check("signature"); sl.check("signature length"); CHECK(mm.is(m) && k.is(sk), "sign modified an input");
  r.smlen = get_u64(sl); r.smlen_touched = r.smlen != LENMARK; r.sm_touched = !s.all(0xA5); r.sm = s.get();
  return r;
}
int lib_keypair_seed(const Bytes& seed, Bytes* pk, Bytes* sk, bool left) {
  GBuf s(seed, true, left), p(PKB, 0xA5, left), k(SKB, 0xA5, left);
  int rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed(p, k, s);
  p.check("public key"); k.check("secret key"); CHECK(s.is(seed), "key generation modified the seed");
  *pk = p.get(); *sk = k.get(); return rc;
}
