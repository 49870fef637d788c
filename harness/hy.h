// Component signature schemes as seen by the hybrid layer, in two versions selected at build time:
//   real  : the independent reference implementations of ref.cpp
//   ideal : cheap stand-ins (-DIDEAL) with the same sizes and calling rules; the hybrid objects of the library are
//           then linked against the same stand-ins, so the hybrid logic can be searched thousands of times faster.
// The hybrid reference functions below are written once on top of either.
#pragma once
#include "env.h"
#include "ref.h"
#include "repo.h"

#ifdef IDEAL
static const bool kIdeal = true;
#else
static const bool kIdeal = false;
#endif

namespace B {
void ed_keypair(const uint8_t seed[32], uint8_t pk[32], uint8_t sk[64]);
void ed_sign(const uint8_t sk[64], const uint8_t* m, size_t n, uint8_t sig[64]);
bool ed_verify(const uint8_t pk[32], const uint8_t* m, size_t n, const uint8_t sig[64]);
void dil_keypair(const uint8_t seed[32], uint8_t* pk, uint8_t* sk);
void dil_sign(const uint8_t* sk, const uint8_t* m, size_t n, uint8_t* sig);
bool dil_verify(const uint8_t* pk, const uint8_t* m, size_t n, const uint8_t* sig);
void spx_keypair(const uint8_t seed[96], uint8_t pk[64], uint8_t sk[128]);
void spx_sign(const uint8_t sk[128], const uint8_t opt[32], const uint8_t* m, size_t n, uint8_t* sig);
bool spx_verify(const uint8_t pk[64], const uint8_t* m, size_t n, const uint8_t* sig);
}

enum { PKB = 1408, SKB = 4064, EDS = 64, DILS = 2420, SPXS = 49856, NONCE = 40, FULLX = 52342, COMPX = 2526 };
// offsets
enum { SK_DIL = 64, SK_DILPK = 2624, SK_SPX = 3936, SK_SPXPK = 4000, PK_DIL = 32, PK_SPX = 1344 };

struct Key { Bytes pk, sk; };
Key hyr_keypair(const Bytes& seed160);
Bytes hyr_digest(const uint8_t* nonce, const uint8_t* m, size_t n, const uint8_t* spxpk);
Bytes hyr_sign_full(const Key& k, const Bytes& m, const Bytes& opt);
Bytes hyr_sign_compact(const Key& k, const Bytes& m, const Bytes& nonce);
bool hyr_open_full(const Bytes& sm, const Bytes& pk, Bytes* m = nullptr);
bool hyr_open_compact(const Bytes& sm, const Bytes& pk, Bytes* m = nullptr);
// assemble from parts
Bytes join_full(const Bytes& m, const Bytes& ed, const Bytes& dil, const Bytes& spx);
Bytes join_compact(const Bytes& m, const Bytes& ed, const Bytes& dil, const Bytes& nonce);
struct Parts { Bytes ed, dil, spx, nonce, m; };
Parts split_full(const Bytes& s); Parts split_compact(const Bytes& s);

// ---- generators
Key gen_key(Gen& g);                     // pooled or freshly seeded; SPHINCS+ part always from a small pool
Key pool_key(unsigned i);                // fixed pool
Key gen_key_full(Gen& g);                // fully fresh (costs a SPHINCS+ key generation)
Bytes gen_msg(Gen& g);                   // 1..64 bytes
const Bytes& pool_full_sig(unsigned key, unsigned i, Bytes* m);   // cached honest full signature (reference-made)
Bytes ed_sig(const Key& k, const Bytes& m); Bytes dil_sig(const Key& k, const Bytes& m); Bytes spx_sig(const Key& k, const Bytes& m, const Bytes& opt);

// ---- calls of the library on guarded buffers; each checks canaries and unmodified inputs
struct OpenRes { int rc; Bytes m; bool m_touched, mlen_touched; uint64_t mlen; };
struct SignRes { int rc; Bytes sm; uint64_t smlen; bool sm_touched, smlen_touched; };
enum Mode { FULL, COMPACT };
inline const char* mname(Mode m) { return m == FULL ? "full" : "compact"; }
// smlen_arg: the length passed (the buffer holds exactly sm.size() bytes)
OpenRes lib_open(Mode mode, const Bytes& sm, uint64_t smlen_arg, const Bytes& pk, bool left = false);
inline OpenRes lib_open(Mode mode, const Bytes& sm, const Bytes& pk, bool left = false) { return lib_open(mode, sm, sm.size(), pk, left); }
int lib_verify(Mode mode, const Bytes& m, uint64_t mlen_arg, const Bytes& sm, uint64_t smlen_arg, const Bytes& pk, bool left = false);
inline int lib_verify(Mode mode, const Bytes& m, const Bytes& sm, const Bytes& pk) { return lib_verify(mode, m, m.size(), sm, sm.size(), pk); }
SignRes lib_sign(Mode mode, const Bytes& m, uint64_t mlen_arg, const Bytes& sk, bool left = false);
inline SignRes lib_sign(Mode mode, const Bytes& m, const Bytes& sk, bool left = false) { return lib_sign(mode, m, m.size(), sk, left); }
int lib_keypair_seed(const Bytes& seed, Bytes* pk, Bytes* sk, bool left = false);
