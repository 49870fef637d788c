// Independent reference implementation of everything the library computes.
// Written from the specifications (FIPS 202, FIPS 180-4, RFC 8032, RFC 7748, Salsa20/NaCl papers,
// Dilithium round-3.1/FIPS 204-ipd level 2, SPHINCS+ 3.1 SHAKE-256f-simple, and the layout comment
// in hybrid.c); it shares no code with /repo.  tools/selftest.py validates it against python's
// hashlib, openssl and pure python big-integer code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <vector>

namespace ref {
typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- FIPS 202
void keccakf(uint64_t s[25]);
void sponge(unsigned rate, uint8_t suffix, const uint8_t* in, size_t n, uint8_t* out, size_t outlen);
inline void shake256(const uint8_t* in, size_t n, uint8_t* out, size_t o) { sponge(136, 0x1f, in, n, out, o); }
inline void shake128(const uint8_t* in, size_t n, uint8_t* out, size_t o) { sponge(168, 0x1f, in, n, out, o); }
inline void sha3_256(const uint8_t* in, size_t n, uint8_t* out) { sponge(136, 0x06, in, n, out, 32); }
inline void sha3_384(const uint8_t* in, size_t n, uint8_t* out) { sponge(104, 0x06, in, n, out, 48); }
inline void sha3_512(const uint8_t* in, size_t n, uint8_t* out) { sponge(72, 0x06, in, n, out, 64); }
inline Bytes shake256v(const Bytes& in, size_t o) { Bytes r(o); shake256(in.data(), in.size(), r.data(), o); return r; }

// ---------------------------------------------------------------- SHA-512
void sha512(const uint8_t* in, size_t n, uint8_t out[64]);
void sha512_blocks(uint8_t h[64], const uint8_t* in, size_t n);   // NaCl hashblocks

// ---------------------------------------------------------------- Ed25519 / X25519
extern const uint8_t ED_L[32];
void ed_keypair(const uint8_t seed[32], uint8_t pk[32], uint8_t sk[64]);
void ed_sign(const uint8_t sk[64], const uint8_t* m, size_t n, uint8_t sig[64]);
enum EdCanon { ED_CANON_OK, ED_NONCANON_Y, ED_NOT_ON_CURVE, ED_NEG_ZERO };
EdCanon ed_classify_point(const uint8_t p[32]);
bool ed_verify(const uint8_t pk[32], const uint8_t* m, size_t n, const uint8_t sig[64], bool check_s = true);
// R and S for a chosen nonce scalar r (any 32-byte LE value, reduced), used to craft odd-but-valid signatures
void ed_sign_with_r(const uint8_t sk[64], const uint8_t* m, size_t n, const uint8_t r[32], uint8_t sig[64]);
// scalar helpers
bool sc_lt_L(const uint8_t s[32]);
bool sc_add_L(uint8_t s[32], int times);           // s += times*L ; false on 256 bit overflow
void sc_reduce64(const uint8_t in[64], uint8_t out[32]);
void sc_muladd(const uint8_t a[32], const uint8_t b[32], const uint8_t c[32], uint8_t out[32]); // a*b+c mod L
void ed_scalarbase(const uint8_t s[32], uint8_t out[32]);
void x25519(uint8_t out[32], const uint8_t n[32], const uint8_t p[32]);

// ---------------------------------------------------------------- NaCl symmetric
void core_salsa20(uint8_t out[64], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]);
void core_hsalsa20(uint8_t out[32], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]);
void salsa20_stream(uint8_t* out, size_t n, const uint8_t nonce[8], const uint8_t k[32]);
void xsalsa20_stream(uint8_t* out, size_t n, const uint8_t nonce[24], const uint8_t k[32]);
void poly1305(uint8_t tag[16], const uint8_t* m, size_t n, const uint8_t k[32]);
// NaCl C-style padded secretbox (first 32 bytes of m zero; output first 16 zero)
void secretbox(uint8_t* c, const uint8_t* m, size_t d, const uint8_t n[24], const uint8_t k[32]);

// ---------------------------------------------------------------- Dilithium2
namespace dil {
const int Q = 8380417, N = 256, K = 4, L = 4, TAU = 39, BETA = 78, GAMMA1 = 1 << 17, GAMMA2 = (Q - 1) / 88, OMEGA = 80, D = 13;
typedef int32_t Poly[256];
struct Vec { Poly p[4]; };
void keypair(const uint8_t seed[32], uint8_t pk[1312], uint8_t sk[2560]);
struct SignOpts {
  bool skip_z = false;        // do not reject on the z norm
  bool skip_w0 = false;       // do not reject on the low-bits norm
  bool skip_ct0 = false;
  bool skip_hint = false;     // do not reject on the hint count (cannot be encoded when > OMEGA)
  int start_nonce = 0;        // first value of the mask counter
  const uint8_t* rhoprime = nullptr;  // 64 bytes: replaces the derived mask seed
  // optional: tweak the mask y before use (poly index, coefficient, new value); value in (-GAMMA1, GAMMA1]
  int tweak_poly = -1, tweak_coef = 0, tweak_val = 0;
  // optional: only accept an attempt whose z[tgt_poly][tgt_coef] equals tgt_val while all other coefficients obey the bound
  int tgt_poly = -1, tgt_coef = 0, tgt_val = 0;
  int flip_ct_byte = -1;      // sign with a challenge string whose byte differs from the hash (only the final compare can notice)
  uint8_t flip_ct_mask = 1;
  int max_attempts = 1000;
};
struct SignInfo { int attempts = 0, rej_z = 0, rej_w0 = 0, rej_ct0 = 0, rej_hint = 0, hints = 0; int zmax = 0; };
bool sign(const uint8_t sk[2560], const uint8_t* m, size_t n, uint8_t sig[2420], const SignOpts& o = SignOpts(), SignInfo* info = nullptr);
enum Verdict { OK, BAD_HINT, BAD_NORM, BAD_CHALLENGE };
Verdict verify_why(const uint8_t pk[1312], const uint8_t* m, size_t n, const uint8_t sig[2420]);
inline bool verify(const uint8_t pk[1312], const uint8_t* m, size_t n, const uint8_t* sig) { return verify_why(pk, m, n, sig) == OK; }
// crafted signatures (need only the public key): pick any z and hint, solve nothing -- challenge won't match;
// or "forge" with knowledge of the secret key while leaving exactly one rule broken: see harness.
void unpack_z(const uint8_t sig[2420], Vec& z);
void pack_z(uint8_t sig[2420], const Vec& z);
bool unpack_hint(const uint8_t* h84, uint8_t bits[4][256]);
struct FreeOpts { uint64_t salt = 0; int zkind = 0; bool setz = false; int zp = 0, zc = 0, zv = 0; int32_t target = -1; int ti = 0, tk = 0; bool hint_target = true, cluster = false; int hints = 0; const uint8_t* rawhint = nullptr; };
struct FreeInfo { int edges = 0; };
bool free_sign(const uint8_t pk[1312], const uint8_t* m, size_t n, const FreeOpts& o, uint8_t sig[2420], FreeInfo* info = nullptr);
void schoolbook(const Poly a, const Poly b, Poly r); // for selftest
void mul(const Poly a, const Poly b, Poly r);
}

// ---------------------------------------------------------------- SPHINCS+-SHAKE-256f-simple
namespace spx {
const int N = 32, H = 68, DD = 17, HP = 4, A = 9, KK = 35, W = 16, LEN = 67;
const size_t SIGLEN = 49856;
void keypair(const uint8_t seed[96], uint8_t pk[64], uint8_t sk[128]);
void sign(const uint8_t sk[128], const uint8_t optrand[32], const uint8_t* m, size_t n, uint8_t* sig);
bool verify(const uint8_t pk[64], const uint8_t* m, size_t n, const uint8_t* sig, size_t siglen);
void message_random(const uint8_t sk[128], const uint8_t optrand[32], const uint8_t* m, size_t n, uint8_t R[32]);
void indices(const uint8_t R[32], const uint8_t pk[64], const uint8_t* m, size_t n, uint32_t fors[35], uint64_t* tree, uint32_t* leaf);
}

// ---------------------------------------------------------------- hybrid
const size_t PK = 1408, SK = 4064, FULL_MIN = 52343, FULL_MAX = 52406, COMPACT_MIN = 2527, COMPACT_MAX = 2590;
void hy_keypair(const uint8_t seed[160], uint8_t* pk, uint8_t* sk);
void hy_digest(const uint8_t nonce[40], const uint8_t* m, size_t n, const uint8_t spxpk[64], uint8_t out[64]);
Bytes hy_sign_full(const uint8_t* sk, const uint8_t* m, size_t n, const uint8_t optrand[32]);
Bytes hy_sign_compact(const uint8_t* sk, const uint8_t* m, size_t n, const uint8_t nonce[40]);
// returns true and the message if the signature is acceptable
bool hy_open_full(const uint8_t* sm, uint64_t n, const uint8_t* pk, Bytes* m);
bool hy_open_compact(const uint8_t* sm, uint64_t n, const uint8_t* pk, Bytes* m);
void hy_expand_seed(const uint8_t seed[96], uint8_t out[160], bool as_documented);
Bytes seedexpander(const Bytes& seed, size_t outlen);
}
