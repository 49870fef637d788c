// Prototypes of the library under test.  Declared here rather than through its headers because the NaCl
// compatibility macros of tweetnacl.h clash with sphincs/nistapi.h.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
typedef unsigned long long ull;
int crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(const unsigned char*, unsigned char*);
int crypto_sign_dilithium_ed25519_sphincs_keypair_seed(unsigned char*, unsigned char*, unsigned char*);
int crypto_sign_dilithium_ed25519_sphincs_keypair(unsigned char*, unsigned char*);
int crypto_sign_dilithium_ed25519_sphincs(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
int crypto_sign_dilithium_ed25519_sphincs_open(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
int crypto_verify_dilithium_ed25519_sphincs(const unsigned char*, ull, const unsigned char*, ull, const unsigned char*);
int crypto_sign_compact_dilithium_ed25519_sphincs(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
int crypto_sign_compact_dilithium_ed25519_sphincs_open(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
int crypto_verify_compact_dilithium_ed25519_sphincs(const unsigned char*, ull, const unsigned char*, ull, const unsigned char*);
int crypto_verify_dilithium(const unsigned char*, ull, const unsigned char*, ull, const unsigned char*);

int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(uint8_t*, uint8_t*, const uint8_t*);
int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair(uint8_t*, uint8_t*);
int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(uint8_t*, size_t*, const uint8_t*, size_t, const uint8_t*);
int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign(uint8_t*, size_t*, const uint8_t*, size_t, const uint8_t*);
int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(const uint8_t*, size_t, const uint8_t*, size_t, const uint8_t*);
int PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(uint8_t*, size_t*, const uint8_t*, size_t, const uint8_t*);

size_t PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_secretkeybytes(void);
size_t PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_publickeybytes(void);
size_t PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_bytes(void);
size_t PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seedbytes(void);
int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair(uint8_t*, uint8_t*, const uint8_t*);
int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair(uint8_t*, uint8_t*);
int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(uint8_t*, size_t*, const uint8_t*, size_t, const uint8_t*);
int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(const uint8_t*, size_t, const uint8_t*, size_t, const uint8_t*);
int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(uint8_t*, size_t*, const uint8_t*, size_t, const uint8_t*);
int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(uint8_t*, size_t*, const uint8_t*, size_t, const uint8_t*);

int crypto_sign_ed25519_keypair_seed(unsigned char*, unsigned char*, unsigned char*);
int crypto_sign_ed25519_tweet(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
int crypto_sign_ed25519_tweet_open(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
int crypto_sign_ed25519_tweet_keypair(unsigned char*, unsigned char*);
int crypto_hash_sha512_tweet(unsigned char*, const unsigned char*, ull);
int crypto_hashblocks_sha512_tweet(unsigned char*, const unsigned char*, ull);
int crypto_box_curve25519xsalsa20poly1305_tweet(unsigned char*, const unsigned char*, ull, const unsigned char*, const unsigned char*, const unsigned char*);
int crypto_box_curve25519xsalsa20poly1305_tweet_open(unsigned char*, const unsigned char*, ull, const unsigned char*, const unsigned char*, const unsigned char*);
int crypto_box_curve25519xsalsa20poly1305_tweet_keypair(unsigned char*, unsigned char*);
int crypto_box_curve25519xsalsa20poly1305_tweet_beforenm(unsigned char*, const unsigned char*, const unsigned char*);
int crypto_box_curve25519xsalsa20poly1305_tweet_afternm(unsigned char*, const unsigned char*, ull, const unsigned char*, const unsigned char*);
int crypto_box_curve25519xsalsa20poly1305_tweet_open_afternm(unsigned char*, const unsigned char*, ull, const unsigned char*, const unsigned char*);
int crypto_secretbox_xsalsa20poly1305_tweet(unsigned char*, const unsigned char*, ull, const unsigned char*, const unsigned char*);
int crypto_secretbox_xsalsa20poly1305_tweet_open(unsigned char*, const unsigned char*, ull, const unsigned char*, const unsigned char*);
int crypto_onetimeauth_poly1305_tweet(unsigned char*, const unsigned char*, ull, const unsigned char*);
int crypto_onetimeauth_poly1305_tweet_verify(const unsigned char*, const unsigned char*, ull, const unsigned char*);
int crypto_scalarmult_curve25519_tweet(unsigned char*, const unsigned char*, const unsigned char*);
int crypto_scalarmult_curve25519_tweet_base(unsigned char*, const unsigned char*);
int crypto_stream_xsalsa20_tweet(unsigned char*, ull, const unsigned char*, const unsigned char*);
int crypto_stream_xsalsa20_tweet_xor(unsigned char*, const unsigned char*, ull, const unsigned char*, const unsigned char*);
int crypto_stream_salsa20_tweet(unsigned char*, ull, const unsigned char*, const unsigned char*);
int crypto_stream_salsa20_tweet_xor(unsigned char*, const unsigned char*, ull, const unsigned char*, const unsigned char*);
int crypto_core_salsa20_tweet(unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*);
int crypto_core_hsalsa20_tweet(unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*);
int crypto_verify_16_tweet(const unsigned char*, const unsigned char*);
int crypto_verify_32_tweet(const unsigned char*, const unsigned char*);

int randombytes(void*, size_t);

typedef struct alignas(16) { uint64_t* ctx; uint64_t room[63]; } kctx;   // room: the size of a context is the library's business
#define KDECL(name) \
  void name##_inc_init(kctx*); void name##_inc_absorb(kctx*, const uint8_t*, size_t); void name##_inc_ctx_clone(kctx*, const kctx*); void name##_inc_ctx_release(kctx*);
KDECL(shake128) KDECL(shake256) KDECL(sha3_256) KDECL(sha3_384) KDECL(sha3_512)
void shake128_inc_finalize(kctx*); void shake256_inc_finalize(kctx*);
void shake128_inc_squeeze(uint8_t*, size_t, kctx*); void shake256_inc_squeeze(uint8_t*, size_t, kctx*);
void sha3_256_inc_finalize(uint8_t*, kctx*); void sha3_384_inc_finalize(uint8_t*, kctx*); void sha3_512_inc_finalize(uint8_t*, kctx*);
void shake128_absorb(kctx*, const uint8_t*, size_t); void shake256_absorb(kctx*, const uint8_t*, size_t);
void shake128_squeezeblocks(uint8_t*, size_t, kctx*); void shake256_squeezeblocks(uint8_t*, size_t, kctx*);
void shake128_ctx_clone(kctx*, const kctx*); void shake256_ctx_clone(kctx*, const kctx*);
void shake128_ctx_release(kctx*); void shake256_ctx_release(kctx*);
void shake128(uint8_t*, size_t, const uint8_t*, size_t); void shake256(uint8_t*, size_t, const uint8_t*, size_t);
void sha3_256(uint8_t*, const uint8_t*, size_t); void sha3_384(uint8_t*, const uint8_t*, size_t); void sha3_512(uint8_t*, const uint8_t*, size_t);
void seedexpander_init(kctx*, const uint8_t*, size_t); void seedexpander(kctx*, uint8_t*, size_t); void seedexpander_release(kctx*);
int seedexpander_wrapper(const uint8_t*, size_t, uint8_t*, size_t);
}
