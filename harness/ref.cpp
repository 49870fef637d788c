#include "ref.h"
#include <cstdlib>
namespace ref {
typedef unsigned __int128 u128;
// ================================================================ Keccak
static const uint64_t RC[24] = {
  0x0000000000000001ULL,0x0000000000008082ULL,0x800000000000808aULL,0x8000000080008000ULL,0x000000000000808bULL,0x0000000080000001ULL,
  0x8000000080008081ULL,0x8000000000008009ULL,0x000000000000008aULL,0x0000000000000088ULL,0x0000000080008009ULL,0x000000008000000aULL,
  0x000000008000808bULL,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,0x8000000000008002ULL,0x8000000000000080ULL,
  0x000000000000800aULL,0x800000008000000aULL,0x8000000080008081ULL,0x8000000000008080ULL,0x0000000080000001ULL,0x8000000080008008ULL};
static inline uint64_t rol(uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }
// rotation offsets r[x+5y]
static const unsigned RHO[25] = {0,1,62,28,27, 36,44,6,55,20, 3,10,43,25,39, 41,45,15,21,8, 18,2,61,56,14};
void keccakf(uint64_t a[25]) {
  for (int r = 0; r < 24; r++) {
    uint64_t c[5], d[5], b[25];
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20];
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++) d[x] = c[(x+4)%5] ^ rol(c[(x+1)%5], 1);
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++)
#pragma GCC unroll 5
      for (int y = 0; y < 5; y++) b[y + 5*((2*x+3*y)%5)] = rol(a[x+5*y] ^ d[x], RHO[x+5*y]);
#pragma GCC unroll 5
    for (int y = 0; y < 5; y++)
#pragma GCC unroll 5
      for (int x = 0; x < 5; x++) a[x+5*y] = b[x+5*y] ^ (~b[(x+1)%5+5*y] & b[(x+2)%5+5*y]);
    a[0] ^= RC[r];
  }
}
void sponge(unsigned rate, uint8_t suffix, const uint8_t* in, size_t n, uint8_t* out, size_t outlen) {
  uint64_t s[25]; memset(s, 0, sizeof s);
  uint8_t blk[200];
  while (n >= rate) {
    for (unsigned i = 0; i < rate / 8; i++) { uint64_t w; memcpy(&w, in + 8*i, 8); s[i] ^= w; }
    keccakf(s); in += rate; n -= rate;
  }
  memset(blk, 0, sizeof blk); if (n) memcpy(blk, in, n);
  blk[n] ^= suffix; blk[rate-1] ^= 0x80;
  for (unsigned i = 0; i < rate / 8; i++) { uint64_t w; memcpy(&w, blk + 8*i, 8); s[i] ^= w; }
  keccakf(s);
  while (outlen) {
    size_t t = outlen < rate ? outlen : rate;
    memcpy(out, s, t); out += t; outlen -= t;
    if (outlen) keccakf(s);
  }
}
// ================================================================ SHA-512
static const uint64_t K512[80] = {
0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,
0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,
0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,
0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,
0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,
0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,
0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,
0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,
0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,
0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL};
static inline uint64_t ror(uint64_t x, unsigned n) { return (x >> n) | (x << (64-n)); }
static void sha512_block(uint64_t h[8], const uint8_t* p) {
  uint64_t w[80];
  for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = (w[i] << 8) | p[8*i+j]; }
  for (int i = 16; i < 80; i++) {
    uint64_t s0 = ror(w[i-15],1) ^ ror(w[i-15],8) ^ (w[i-15] >> 7), s1 = ror(w[i-2],19) ^ ror(w[i-2],61) ^ (w[i-2] >> 6);
    w[i] = w[i-16] + s0 + w[i-7] + s1;
  }
  uint64_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
  for (int i = 0; i < 80; i++) {
    uint64_t t1 = hh + (ror(e,14)^ror(e,18)^ror(e,41)) + ((e&f)^(~e&g)) + K512[i] + w[i];
    uint64_t t2 = (ror(a,28)^ror(a,34)^ror(a,39)) + ((a&b)^(a&c)^(b&c));
    hh=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
  }
  h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=hh;
}
void sha512_blocks(uint8_t hb[64], const uint8_t* in, size_t n) {
  uint64_t h[8];
  for (int i = 0; i < 8; i++) { h[i] = 0; for (int j = 0; j < 8; j++) h[i] = (h[i] << 8) | hb[8*i+j]; }
  while (n >= 128) { sha512_block(h, in); in += 128; n -= 128; }
  for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) hb[8*i+j] = (uint8_t)(h[i] >> (56 - 8*j));
}
void sha512(const uint8_t* in, size_t n, uint8_t out[64]) {
  uint64_t h[8] = {0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
  size_t tot = n;
  while (n >= 128) { sha512_block(h, in); in += 128; n -= 128; }
  uint8_t b[256]; memset(b, 0, sizeof b); if (n) memcpy(b, in, n); b[n] = 0x80;
  size_t bl = n < 112 ? 128 : 256;
  uint64_t bits = (uint64_t)tot << 3, hi = (uint64_t)tot >> 61;
  for (int j = 0; j < 8; j++) { b[bl-1-j] = (uint8_t)(bits >> (8*j)); b[bl-9-j] = (uint8_t)(hi >> (8*j)); }
  for (size_t o = 0; o < bl; o += 128) sha512_block(h, b + o);
  for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) out[8*i+j] = (uint8_t)(h[i] >> (56 - 8*j));
}
// ================================================================ field 2^255-19, radix 2^51
struct Fe { uint64_t v[5]; };
static const uint64_t M51 = (1ULL << 51) - 1;
static Fe fe_small(uint64_t x) { Fe r = {{x,0,0,0,0}}; return r; }
static void fe_carry(Fe& a) {
  for (int k = 0; k < 2; k++) {
    for (int i = 0; i < 4; i++) { a.v[i+1] += a.v[i] >> 51; a.v[i] &= M51; }
    uint64_t c = a.v[4] >> 51; a.v[4] &= M51; a.v[0] += 19*c;
  }
}
static Fe fe_add(const Fe& a, const Fe& b) { Fe r; for (int i = 0; i < 5; i++) r.v[i] = a.v[i] + b.v[i]; fe_carry(r); return r; }
static Fe fe_sub(const Fe& a, const Fe& b) { // a + 4p - b
  static const uint64_t P4[5] = {4*((1ULL<<51)-19), 4*((1ULL<<51)-1), 4*((1ULL<<51)-1), 4*((1ULL<<51)-1), 4*((1ULL<<51)-1)};
  Fe r; for (int i = 0; i < 5; i++) r.v[i] = a.v[i] + P4[i] - b.v[i]; fe_carry(r); return r; }
static Fe fe_mul(const Fe& a, const Fe& b) {
  u128 t[5] = {0,0,0,0,0};
  for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) {
    u128 p = (u128)a.v[i] * b.v[j];
    if (i + j < 5) t[i+j] += p; else t[i+j-5] += p * 19;
  }
  Fe r; u128 c = 0;
  for (int i = 0; i < 5; i++) { t[i] += c; r.v[i] = (uint64_t)t[i] & M51; c = t[i] >> 51; }
  r.v[0] += (uint64_t)(c * 19); fe_carry(r); return r;
}
static Fe fe_sq(const Fe& a) { return fe_mul(a, a); }
static void fe_tobytes(uint8_t out[32], Fe a) {
  fe_carry(a); fe_carry(a);
  // now < 2^255; subtract p if >= p
  for (int k = 0; k < 2; k++) {
    bool ge = a.v[4] == M51 && a.v[3] == M51 && a.v[2] == M51 && a.v[1] == M51 && a.v[0] >= (1ULL<<51) - 19;
    if (ge) { a.v[0] -= (1ULL<<51) - 19; a.v[1] = a.v[2] = a.v[3] = a.v[4] = 0; }
  }
  memset(out, 0, 32);
  for (int i = 0; i < 255; i++) if ((a.v[i/51] >> (i%51)) & 1) out[i/8] |= 1 << (i%8);
}
static Fe fe_frombytes(const uint8_t in[32]) { // ignores bit 255, accepts values >= p
  Fe r = {{0,0,0,0,0}};
  for (int i = 0; i < 255; i++) if ((in[i/8] >> (i%8)) & 1) r.v[i/51] |= 1ULL << (i%51);
  return r;
}
static bool fe_eq(const Fe& a, const Fe& b) { uint8_t x[32], y[32]; fe_tobytes(x, a); fe_tobytes(y, b); return !memcmp(x, y, 32); }
static bool fe_iszero(const Fe& a) { return fe_eq(a, fe_small(0)); }
static int fe_odd(const Fe& a) { uint8_t x[32]; fe_tobytes(x, a); return x[0] & 1; }
static Fe fe_pow(const Fe& a, const uint8_t e[32]) { // LE exponent
  Fe r = fe_small(1);
  for (int i = 255; i >= 0; i--) { r = fe_sq(r); if ((e[i/8] >> (i%8)) & 1) r = fe_mul(r, a); }
  return r;
}
static Fe fe_inv(const Fe& a) { uint8_t e[32]; memset(e, 0xff, 32); e[0] = 0xeb; e[31] = 0x7f; return fe_pow(a, e); }           // p-2
static Fe fe_p58(const Fe& a) { uint8_t e[32]; memset(e, 0xff, 32); e[0] = 0xfd; e[31] = 0x0f; return fe_pow(a, e); }           // (p-5)/8
static Fe fe_p14(const Fe& a) { uint8_t e[32]; memset(e, 0xff, 32); e[0] = 0xfb; e[31] = 0x1f; return fe_pow(a, e); }           // (p-1)/4
struct Consts { Fe d, d2, sqrtm1; };
static Consts mk() { Consts c;
  Fe n = fe_sub(fe_small(0), fe_small(121665)); c.d = fe_mul(n, fe_inv(fe_small(121666))); c.d2 = fe_add(c.d, c.d);
  c.sqrtm1 = fe_p14(fe_small(2)); return c; }
static const Consts& C() { static const Consts c = mk(); return c; }
struct Pt { Fe X, Y, Z, T; };
static Pt pt_zero() { Pt p; p.X = fe_small(0); p.Y = fe_small(1); p.Z = fe_small(1); p.T = fe_small(0); return p; }
static Pt pt_add(const Pt& p, const Pt& q) { // complete a=-1 extended addition (RFC 8032 5.1.4)
  Fe A = fe_mul(fe_sub(p.Y, p.X), fe_sub(q.Y, q.X)), B = fe_mul(fe_add(p.Y, p.X), fe_add(q.Y, q.X));
  Fe Cc = fe_mul(fe_mul(p.T, C().d2), q.T), Dd = fe_mul(fe_add(p.Z, p.Z), q.Z);
  Fe E = fe_sub(B, A), F = fe_sub(Dd, Cc), G = fe_add(Dd, Cc), H = fe_add(B, A);
  Pt r; r.X = fe_mul(E, F); r.Y = fe_mul(G, H); r.T = fe_mul(E, H); r.Z = fe_mul(F, G); return r;
}
static Pt pt_neg(const Pt& p) { Pt r = p; r.X = fe_sub(fe_small(0), p.X); r.T = fe_sub(fe_small(0), p.T); return r; }
static Pt pt_mul(const Pt& p, const uint8_t s[32]) {
  Pt r = pt_zero();
  for (int i = 255; i >= 0; i--) { r = pt_add(r, r); if ((s[i/8] >> (i%8)) & 1) r = pt_add(r, p); }
  return r;
}
static void pt_enc(uint8_t out[32], const Pt& p) {
  Fe zi = fe_inv(p.Z), x = fe_mul(p.X, zi), y = fe_mul(p.Y, zi);
  fe_tobytes(out, y); out[31] |= (uint8_t)(fe_odd(x) << 7);
}
static bool pt_dec(Pt& p, const uint8_t in[32]) { // ignores y >= p and x=0 sign rule (classify reports them)
  Fe y = fe_frombytes(in), y2 = fe_sq(y), u = fe_sub(y2, fe_small(1)), v = fe_add(fe_mul(C().d, y2), fe_small(1));
  Fe v3 = fe_mul(fe_sq(v), v), v7 = fe_mul(fe_sq(v3), v);
  Fe x = fe_mul(fe_mul(u, v3), fe_p58(fe_mul(u, v7)));
  Fe vx2 = fe_mul(v, fe_sq(x));
  if (!fe_eq(vx2, u)) { x = fe_mul(x, C().sqrtm1); vx2 = fe_mul(v, fe_sq(x)); if (!fe_eq(vx2, u)) return false; }
  if (fe_odd(x) != (in[31] >> 7)) x = fe_sub(fe_small(0), x);
  p.X = x; p.Y = y; p.Z = fe_small(1); p.T = fe_mul(x, y); return true;
}
static Pt mkbase() { uint8_t b[32]; memset(b, 0x66, 32); b[0] = 0x58; Pt p; if (!pt_dec(p, b)) abort(); return p; }
static const Pt& base() { static const Pt b = mkbase(); return b; }
EdCanon ed_classify_point(const uint8_t in[32]) {
  uint8_t y[32]; memcpy(y, in, 32); y[31] &= 0x7f;
  uint8_t c[32]; fe_tobytes(c, fe_frombytes(in));
  if (memcmp(c, y, 32)) return ED_NONCANON_Y;
  Pt p; if (!pt_dec(p, in)) return ED_NOT_ON_CURVE;
  if (fe_iszero(p.X) && (in[31] >> 7)) return ED_NEG_ZERO;
  return ED_CANON_OK;
}
// ---- scalars mod L, 64-bit limbs, schoolbook + shift/subtract
const uint8_t ED_L[32] = {0xed,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x10};
static void load(uint64_t* w, int nw, const uint8_t* b, int nb) { for (int i = 0; i < nw; i++) w[i] = 0; for (int i = 0; i < nb; i++) w[i/8] |= (uint64_t)b[i] << (8*(i%8)); }
static void modL_(uint64_t* x, int nw, uint8_t out[32]) { // x has nw limbs; bitwise long division
  uint64_t l[4]; load(l, 4, ED_L, 32);
  uint64_t r[5] = {0,0,0,0,0};
  for (int i = nw*64 - 1; i >= 0; i--) {
    for (int k = 4; k > 0; k--) r[k] = (r[k] << 1) | (r[k-1] >> 63);
    r[0] = (r[0] << 1) | ((x[i/64] >> (i%64)) & 1);
    bool ge = r[4] != 0;
    if (!ge) { ge = true; for (int k = 3; k >= 0; k--) { if (r[k] > l[k]) break; if (r[k] < l[k]) { ge = false; break; } } }
    if (ge) { uint64_t bw = 0; for (int k = 0; k < 4; k++) { uint64_t t = r[k] - l[k] - bw; bw = (r[k] < l[k] + bw) || (bw && l[k] == ~0ULL) ? 1 : 0; r[k] = t; } r[4] -= bw; }
  }
  for (int i = 0; i < 32; i++) out[i] = (uint8_t)(r[i/8] >> (8*(i%8)));
}
void sc_reduce64(const uint8_t in[64], uint8_t out[32]) { uint64_t x[8]; load(x, 8, in, 64); modL_(x, 8, out); }
void sc_muladd(const uint8_t a[32], const uint8_t b[32], const uint8_t c[32], uint8_t out[32]) {
  uint64_t x[4], y[4], z[4], r[9] = {0}; load(x, 4, a, 32); load(y, 4, b, 32); load(z, 4, c, 32);
  for (int i = 0; i < 4; i++) { u128 cy = 0; for (int j = 0; j < 4; j++) { u128 t = (u128)x[i]*y[j] + r[i+j] + cy; r[i+j] = (uint64_t)t; cy = t >> 64; } r[i+4] = (uint64_t)cy; }
  u128 cy = 0; for (int i = 0; i < 9; i++) { u128 t = (u128)r[i] + (i < 4 ? z[i] : 0) + cy; r[i] = (uint64_t)t; cy = t >> 64; }
  modL_(r, 9, out);
}
bool sc_lt_L(const uint8_t s[32]) { for (int i = 31; i >= 0; i--) { if (s[i] < ED_L[i]) return true; if (s[i] > ED_L[i]) return false; } return false; }
bool sc_add_L(uint8_t s[32], int times) { while (times-- > 0) { unsigned c = 0; for (int i = 0; i < 32; i++) { c += s[i] + ED_L[i]; s[i] = (uint8_t)c; c >>= 8; } if (c) return false; } return true; }
void ed_scalarbase(const uint8_t s[32], uint8_t out[32]) { pt_enc(out, pt_mul(base(), s)); }
static void ed_expand(const uint8_t seed[32], uint8_t d[64]) { sha512(seed, 32, d); d[0] &= 248; d[31] &= 63; d[31] |= 64; }
void ed_keypair(const uint8_t seed[32], uint8_t pk[32], uint8_t sk[64]) {
  uint8_t d[64]; ed_expand(seed, d); ed_scalarbase(d, pk); memcpy(sk, seed, 32); memcpy(sk + 32, pk, 32);
}
static void ed_finish(const uint8_t sk[64], const uint8_t d[64], const uint8_t r[32], const uint8_t* m, size_t n, uint8_t sig[64]) {
  uint8_t R[32]; ed_scalarbase(r, R);
  Bytes b(64 + n); memcpy(&b[0], R, 32); memcpy(&b[32], sk + 32, 32); if (n) memcpy(&b[64], m, n);
  uint8_t h[64], k[32]; sha512(b.data(), b.size(), h); sc_reduce64(h, k);
  uint8_t S[32]; sc_muladd(k, d, r, S); memcpy(sig, R, 32); memcpy(sig + 32, S, 32);
}
void ed_sign(const uint8_t sk[64], const uint8_t* m, size_t n, uint8_t sig[64]) {
  uint8_t d[64]; ed_expand(sk, d);
  Bytes b(32 + n); memcpy(&b[0], d + 32, 32); if (n) memcpy(&b[32], m, n);
  uint8_t h[64], r[32]; sha512(b.data(), b.size(), h); sc_reduce64(h, r);
  ed_finish(sk, d, r, m, n, sig);
}
void ed_sign_with_r(const uint8_t sk[64], const uint8_t* m, size_t n, const uint8_t r0[32], uint8_t sig[64]) {
  uint8_t d[64], w[64], r[32]; ed_expand(sk, d); memset(w, 0, 64); memcpy(w, r0, 32); sc_reduce64(w, r);
  ed_finish(sk, d, r, m, n, sig);
}
bool ed_verify(const uint8_t pk[32], const uint8_t* m, size_t n, const uint8_t sig[64], bool check_s) {
  if (check_s && !sc_lt_L(sig + 32)) return false;
  Pt A; if (!pt_dec(A, pk)) return false;
  Bytes b(64 + n); memcpy(&b[0], sig, 32); memcpy(&b[32], pk, 32); if (n) memcpy(&b[64], m, n);
  uint8_t h[64], k[32]; sha512(b.data(), b.size(), h); sc_reduce64(h, k);
  Pt q = pt_add(pt_mul(base(), sig + 32), pt_mul(pt_neg(A), k));
  uint8_t R[32]; pt_enc(R, q); return !memcmp(R, sig, 32);
}
void x25519(uint8_t out[32], const uint8_t n[32], const uint8_t p[32]) {
  uint8_t e[32]; memcpy(e, n, 32); e[0] &= 248; e[31] &= 127; e[31] |= 64;
  Fe x1 = fe_frombytes(p), x2 = fe_small(1), z2 = fe_small(0), x3 = x1, z3 = fe_small(1);
  int swap = 0;
  for (int t = 254; t >= 0; t--) {
    int kt = (e[t/8] >> (t%8)) & 1; swap ^= kt;
    if (swap) { Fe q = x2; x2 = x3; x3 = q; q = z2; z2 = z3; z3 = q; }
    swap = kt;
    Fe A = fe_add(x2, z2), AA = fe_sq(A), B = fe_sub(x2, z2), BB = fe_sq(B), E = fe_sub(AA, BB), Cc = fe_add(x3, z3), D = fe_sub(x3, z3);
    Fe DA = fe_mul(D, A), CB = fe_mul(Cc, B);
    x3 = fe_sq(fe_add(DA, CB)); z3 = fe_mul(x1, fe_sq(fe_sub(DA, CB)));
    x2 = fe_mul(AA, BB); z2 = fe_mul(E, fe_add(AA, fe_mul(fe_small(121665), E)));
  }
  if (swap) { x2 = x3; z2 = z3; }
  fe_tobytes(out, fe_mul(x2, fe_inv(z2)));
}
// ================================================================ Salsa20 family
static inline uint32_t rl(uint32_t x, int n) { return (x << n) | (x >> (32-n)); }
static uint32_t ld4(const uint8_t* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static void st4(uint8_t* p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static void salsa_rounds(uint32_t x[16]) {
  for (int i = 0; i < 10; i++) {
    x[4]^=rl(x[0]+x[12],7); x[8]^=rl(x[4]+x[0],9); x[12]^=rl(x[8]+x[4],13); x[0]^=rl(x[12]+x[8],18);
    x[9]^=rl(x[5]+x[1],7); x[13]^=rl(x[9]+x[5],9); x[1]^=rl(x[13]+x[9],13); x[5]^=rl(x[1]+x[13],18);
    x[14]^=rl(x[10]+x[6],7); x[2]^=rl(x[14]+x[10],9); x[6]^=rl(x[2]+x[14],13); x[10]^=rl(x[6]+x[2],18);
    x[3]^=rl(x[15]+x[11],7); x[7]^=rl(x[3]+x[15],9); x[11]^=rl(x[7]+x[3],13); x[15]^=rl(x[11]+x[7],18);
    x[1]^=rl(x[0]+x[3],7); x[2]^=rl(x[1]+x[0],9); x[3]^=rl(x[2]+x[1],13); x[0]^=rl(x[3]+x[2],18);
    x[6]^=rl(x[5]+x[4],7); x[7]^=rl(x[6]+x[5],9); x[4]^=rl(x[7]+x[6],13); x[5]^=rl(x[4]+x[7],18);
    x[11]^=rl(x[10]+x[9],7); x[8]^=rl(x[11]+x[10],9); x[9]^=rl(x[8]+x[11],13); x[10]^=rl(x[9]+x[8],18);
    x[12]^=rl(x[15]+x[14],7); x[13]^=rl(x[12]+x[15],9); x[14]^=rl(x[13]+x[12],13); x[15]^=rl(x[14]+x[13],18);
  }
}
static void salsa_init(uint32_t x[16], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]) {
  for (int i = 0; i < 4; i++) { x[5*i] = ld4(c+4*i); x[1+i] = ld4(k+4*i); x[6+i] = ld4(in+4*i); x[11+i] = ld4(k+16+4*i); }
}
void core_salsa20(uint8_t out[64], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]) {
  uint32_t x[16], y[16]; salsa_init(x, in, k, c); memcpy(y, x, sizeof x); salsa_rounds(x);
  for (int i = 0; i < 16; i++) st4(out+4*i, x[i] + y[i]);
}
void core_hsalsa20(uint8_t out[32], const uint8_t in[16], const uint8_t k[32], const uint8_t c[16]) {
  uint32_t x[16]; salsa_init(x, in, k, c); salsa_rounds(x);
  static const int o[8] = {0,5,10,15,6,7,8,9};
  for (int i = 0; i < 8; i++) st4(out+4*i, x[o[i]]);
}
static const uint8_t SIGMA[17] = "expand 32-byte k";
void salsa20_stream(uint8_t* out, size_t n, const uint8_t nonce[8], const uint8_t k[32]) {
  uint64_t ctr = 0; uint8_t in[16], blk[64];
  while (n) {
    memcpy(in, nonce, 8); for (int i = 0; i < 8; i++) in[8+i] = (uint8_t)(ctr >> (8*i));
    core_salsa20(blk, in, k, SIGMA); size_t t = n < 64 ? n : 64; memcpy(out, blk, t); out += t; n -= t; ctr++;
  }
}
void xsalsa20_stream(uint8_t* out, size_t n, const uint8_t nonce[24], const uint8_t k[32]) {
  uint8_t s[32]; core_hsalsa20(s, nonce, k, SIGMA); salsa20_stream(out, n, nonce + 16, s);
}
void poly1305(uint8_t tag[16], const uint8_t* m, size_t n, const uint8_t k[32]) {
  // arithmetic mod 2^130-5 with five 26-bit limbs held in 64-bit words, reduced lazily
  uint8_t rb[17]; memcpy(rb, k, 16); rb[16] = 0; rb[3] &= 15; rb[7] &= 15; rb[11] &= 15; rb[15] &= 15; rb[4] &= 252; rb[8] &= 252; rb[12] &= 252;
  auto limbs = [](const uint8_t b[17], uint64_t l[5]) { for (int i = 0; i < 5; i++) { l[i] = 0; for (int j = 0; j < 26; j++) { int bit = 26*i + j; if (bit < 136 && ((b[bit/8] >> (bit%8)) & 1)) l[i] |= 1ULL << j; } } };
  uint64_t r[5], h[5] = {0,0,0,0,0}; limbs(rb, r);
  while (n) {
    uint8_t b[17]; memset(b, 0, 17); size_t t = n < 16 ? n : 16; memcpy(b, m, t); b[t] = 1; m += t; n -= t;
    uint64_t c[5]; limbs(b, c);
    for (int i = 0; i < 5; i++) h[i] += c[i];
    u128 p[5] = {0,0,0,0,0};
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { u128 q = (u128)h[i]*r[j]; if (i+j < 5) p[i+j] += q; else p[i+j-5] += 5*q; }
    u128 cy = 0; for (int i = 0; i < 5; i++) { p[i] += cy; h[i] = (uint64_t)p[i] & 0x3ffffff; cy = p[i] >> 26; }
    h[0] += (uint64_t)(cy*5); for (int i = 0; i < 4; i++) { h[i+1] += h[i] >> 26; h[i] &= 0x3ffffff; }
  }
  for (int k2 = 0; k2 < 3; k2++) { for (int i = 0; i < 4; i++) { h[i+1] += h[i] >> 26; h[i] &= 0x3ffffff; } uint64_t c = h[4] >> 26; h[4] &= 0x3ffffff; h[0] += 5*c; }
  for (int i = 0; i < 4; i++) { h[i+1] += h[i] >> 26; h[i] &= 0x3ffffff; }
  bool ge = h[4] == 0x3ffffff && h[3] == 0x3ffffff && h[2] == 0x3ffffff && h[1] == 0x3ffffff && h[0] >= 0x3fffffb;
  if (ge) { h[0] -= 0x3fffffb; h[1] = h[2] = h[3] = h[4] = 0; }
  uint8_t o[17]; memset(o, 0, 17); for (int i = 0; i < 130; i++) if ((h[i/26] >> (i%26)) & 1) o[i/8] |= 1 << (i%8);
  unsigned c = 0; for (int i = 0; i < 16; i++) { c += o[i] + k[16+i]; tag[i] = (uint8_t)c; c >>= 8; }
}
void secretbox(uint8_t* c, const uint8_t* m, size_t d, const uint8_t n[24], const uint8_t k[32]) {
  Bytes s(d); xsalsa20_stream(s.data(), d, n, k);
  for (size_t i = 0; i < d; i++) c[i] = m[i] ^ s[i];
  poly1305(c + 16, c + 32, d - 32, s.data()); memset(c, 0, 16);
}
// ================================================================ Dilithium2
namespace dil {
static int64_t modq(int64_t x) { x %= Q; return x < 0 ? x + Q : x; }
static int32_t centered(int32_t x) { return x > (Q-1)/2 ? x - Q : x; } // x in [0,Q)
static int64_t powq(int64_t b, int e) { int64_t r = 1; for (; e; e >>= 1, b = b*b % Q) if (e & 1) r = r*b % Q; return r; }
struct Tab { int32_t z[256]; Tab() { for (int i = 0; i < 256; i++) { int br = 0; for (int b = 0; b < 8; b++) if (i >> b & 1) br |= 1 << (7-b); z[i] = (int32_t)powq(1753, br); } } };
static const Tab& tab() { static const Tab t; return t; }
static void ntt(Poly a) { // in [0,Q)
  const Tab& T = tab(); int k = 0;
  for (int len = 128; len >= 1; len >>= 1) for (int s = 0; s < 256; s += 2*len) {
    int64_t z = T.z[++k];
    for (int j = s; j < s + len; j++) { int64_t t = z * a[j+len] % Q; a[j+len] = (int32_t)((a[j] - t + Q) % Q); a[j] = (int32_t)((a[j] + t) % Q); }
  }
}
static void intt(Poly a) {
  const Tab& T = tab(); int k = 256;
  for (int len = 1; len <= 128; len <<= 1) for (int s = 0; s < 256; s += 2*len) {
    int64_t z = Q - T.z[--k];
    for (int j = s; j < s + len; j++) { int64_t t = a[j]; a[j] = (int32_t)((t + a[j+len]) % Q); a[j+len] = (int32_t)(z * ((t - a[j+len] + Q) % Q) % Q); }
  }
  int64_t f = powq(256, Q-2); for (int i = 0; i < 256; i++) a[i] = (int32_t)(f * a[i] % Q);
}
void schoolbook(const Poly a, const Poly b, Poly r) {
  int64_t t[512] = {0};
  for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) t[i+j] = (t[i+j] + modq(a[i])*modq(b[j])) % Q;
  for (int i = 0; i < 256; i++) r[i] = (int32_t)modq(t[i] - t[i+256]);
}
void mul(const Poly a, const Poly b, Poly r) {
  Poly x, y; for (int i = 0; i < 256; i++) { x[i] = (int32_t)modq(a[i]); y[i] = (int32_t)modq(b[i]); }
  ntt(x); ntt(y); for (int i = 0; i < 256; i++) r[i] = (int32_t)((int64_t)x[i]*y[i] % Q); intt(r);
}
static void expandA(const uint8_t rho[32], Poly A[4][4]) { // already in NTT domain
  uint8_t in[34], buf[168*12]; memcpy(in, rho, 32);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
    in[32] = (uint8_t)j; in[33] = (uint8_t)i; shake128(in, 34, buf, sizeof buf);
    int c = 0; for (size_t p = 0; c < 256; p += 3) { if (p + 3 > sizeof buf) abort(); int32_t t = buf[p] | buf[p+1] << 8 | (buf[p+2] & 0x7f) << 16; if (t < Q) A[i][j][c++] = t; }
  }
}
static void bits_out(uint8_t*& o, int& fill, uint32_t v, int nb) { for (int i = 0; i < nb; i++) { if (fill == 0) *o = 0; if (v >> i & 1) *o |= 1 << fill; if (++fill == 8) { fill = 0; o++; } } }
static uint32_t bits_in(const uint8_t* b, size_t pos, int nb) { uint32_t v = 0; for (int i = 0; i < nb; i++) if (b[(pos+i)/8] >> ((pos+i)%8) & 1) v |= 1u << i; return v; }
static void packp(uint8_t* out, const Poly a, int nb, int base) { uint8_t* o = out; int f = 0; for (int i = 0; i < 256; i++) bits_out(o, f, (uint32_t)(base < 0 ? a[i] : base - a[i]), nb); }
static void unpackp(Poly a, const uint8_t* in, int nb, int base) { for (int i = 0; i < 256; i++) { int32_t v = (int32_t)bits_in(in, (size_t)i*nb, nb); a[i] = base < 0 ? v : base - v; } }
static void expandS(const uint8_t rp[64], int nonce, Poly s) {
  uint8_t in[66], buf[136*8]; memcpy(in, rp, 64); in[64] = nonce & 255; in[65] = nonce >> 8; shake256(in, 66, buf, sizeof buf);
  int c = 0; for (size_t p = 0; c < 256; p++) { if (p >= sizeof buf) abort(); for (int k = 0; k < 2 && c < 256; k++) { int t = k ? buf[p] >> 4 : buf[p] & 15; if (t < 15) s[c++] = 2 - t % 5; } }
}
static void expandMask(const uint8_t rp[64], unsigned nonce, Poly y) {
  uint8_t in[66], buf[576]; memcpy(in, rp, 64); in[64] = nonce & 255; in[65] = (nonce >> 8) & 255; shake256(in, 66, buf, sizeof buf); unpackp(y, buf, 18, GAMMA1);
}
static void challenge(const uint8_t ct[32], Poly c) {
  uint8_t buf[136*8]; shake256(ct, 32, buf, sizeof buf); uint64_t sg; memcpy(&sg, buf, 8); memset(c, 0, sizeof(Poly));
  size_t p = 8; for (int i = 256 - TAU; i < 256; i++) { int b; do { if (p >= sizeof buf) abort(); b = buf[p++]; } while (b > i); c[i] = c[b]; c[b] = (sg & 1) ? -1 : 1; sg >>= 1; }
}
static void decompose(int32_t a, int32_t& a1, int32_t& a0) { // a in [0,Q), spec definition
  a0 = a % (2*GAMMA2); if (a0 > GAMMA2) a0 -= 2*GAMMA2;
  if (a - a0 == Q - 1) { a1 = 0; a0 -= 1; } else a1 = (a - a0) / (2*GAMMA2);
}
static int32_t highbits(int32_t a) { int32_t h, l; decompose(a, h, l); return h; }
static int32_t use_hint(int h, int32_t a) { int32_t a1, a0; decompose(a, a1, a0); if (!h) return a1; return a0 > 0 ? (a1 + 1) % 44 : (a1 + 43) % 44; }
void keypair(const uint8_t seed[32], uint8_t pk[1312], uint8_t sk[2560]) {
  uint8_t sb[128]; shake256(seed, 32, sb, 128); const uint8_t *rho = sb, *rp = sb + 32, *key = sb + 96;
  static thread_local Poly A[4][4]; expandA(rho, A);
  Vec s1, s2, t1, t0; for (int i = 0; i < 4; i++) { expandS(rp, i, s1.p[i]); expandS(rp, 4 + i, s2.p[i]); }
  Vec sh; for (int j = 0; j < 4; j++) { for (int i = 0; i < 256; i++) sh.p[j][i] = (int32_t)modq(s1.p[j][i]); ntt(sh.p[j]); }
  memcpy(pk, rho, 32);
  for (int i = 0; i < 4; i++) {
    Poly t; for (int n = 0; n < 256; n++) { int64_t a = 0; for (int j = 0; j < 4; j++) a += (int64_t)A[i][j][n]*sh.p[j][n] % Q; t[n] = (int32_t)(a % Q); }
    intt(t);
    for (int n = 0; n < 256; n++) { int32_t v = (int32_t)modq(t[n] + s2.p[i][n]); int32_t lo = v % (1 << D); if (lo > (1 << (D-1))) lo -= 1 << D; t0.p[i][n] = lo; t1.p[i][n] = (v - lo) >> D; }
    packp(pk + 32 + 320*i, t1.p[i], 10, -1);
  }
  memcpy(sk, rho, 32); memcpy(sk + 32, key, 32); shake256(pk, 1312, sk + 64, 64);
  for (int i = 0; i < 4; i++) { packp(sk + 128 + 96*i, s1.p[i], 3, 2); packp(sk + 512 + 96*i, s2.p[i], 3, 2); packp(sk + 896 + 416*i, t0.p[i], 13, 1 << (D-1)); }
}
static int32_t infnorm(const Poly a) { int32_t m = 0; for (int i = 0; i < 256; i++) { int32_t c = centered(a[i]); if (c < 0) c = -c; if (c > m) m = c; } return m; }
void unpack_z(const uint8_t sig[2420], Vec& z) { for (int i = 0; i < 4; i++) unpackp(z.p[i], sig + 32 + 576*i, 18, GAMMA1); }
void pack_z(uint8_t sig[2420], const Vec& z) { for (int i = 0; i < 4; i++) packp(sig + 32 + 576*i, z.p[i], 18, GAMMA1); }
bool sign(const uint8_t sk[2560], const uint8_t* m, size_t n, uint8_t sig[2420], const SignOpts& o, SignInfo* info) {
  SignInfo dummy; if (!info) info = &dummy;
  const uint8_t *rho = sk, *key = sk + 32, *tr = sk + 64;
  static thread_local Poly A[4][4]; expandA(rho, A);
  Vec s1, s2, t0;
  for (int i = 0; i < 4; i++) { unpackp(s1.p[i], sk + 128 + 96*i, 3, 2); unpackp(s2.p[i], sk + 512 + 96*i, 3, 2); unpackp(t0.p[i], sk + 896 + 416*i, 13, 1 << (D-1)); }
  auto tontt = [](Vec& v) { for (int i = 0; i < 4; i++) { for (int k = 0; k < 256; k++) v.p[i][k] = (int32_t)modq(v.p[i][k]); ntt(v.p[i]); } };
  tontt(s1); tontt(s2); tontt(t0);
  Bytes b(64 + n); memcpy(&b[0], tr, 64); if (n) memcpy(&b[64], m, n);
  uint8_t mu[64], rp[64]; shake256(b.data(), b.size(), mu, 64);
  uint8_t t[128]; memcpy(t, key, 32); memset(t + 32, 0, 32); memcpy(t + 64, mu, 64); shake256(t, 128, rp, 64);
  if (o.rhoprime) memcpy(rp, o.rhoprime, 64);
  for (int at = 0; at < o.max_attempts; at++) {
    info->attempts++;
    Vec y, yh, w, w1; for (int i = 0; i < 4; i++) expandMask(rp, (unsigned)(4*(o.start_nonce + at) + i), y.p[i]);
    if (o.tgt_poly >= 0) y.p[o.tgt_poly][o.tgt_coef] = o.tgt_val;
    if (o.tweak_poly >= 0) y.p[o.tweak_poly][o.tweak_coef] = o.tweak_val;
    yh = y; tontt(yh);
    for (int i = 0; i < 4; i++) {
      for (int k = 0; k < 256; k++) { int64_t a = 0; for (int j = 0; j < 4; j++) a += (int64_t)A[i][j][k]*yh.p[j][k] % Q; w.p[i][k] = (int32_t)(a % Q); }
      intt(w.p[i]); for (int k = 0; k < 256; k++) w1.p[i][k] = highbits(w.p[i][k]);
    }
    Bytes hb(64 + 768); memcpy(&hb[0], mu, 64); for (int i = 0; i < 4; i++) packp(&hb[64 + 192*i], w1.p[i], 6, -1);
    uint8_t ct[32]; shake256(hb.data(), hb.size(), ct, 32);
    if (o.flip_ct_byte >= 0) ct[o.flip_ct_byte] ^= o.flip_ct_mask;
    Poly c; challenge(ct, c); for (int k = 0; k < 256; k++) c[k] = (int32_t)modq(c[k]); ntt(c);
    Vec z, cs2, ct0; bool rej = false; int zm = 0;
    auto cm = [&](Vec& r, const Vec& v) { for (int i = 0; i < 4; i++) { for (int k = 0; k < 256; k++) r.p[i][k] = (int32_t)((int64_t)c[k]*v.p[i][k] % Q); intt(r.p[i]); } };
    cm(z, s1); cm(cs2, s2); cm(ct0, t0);
    for (int i = 0; i < 4; i++) { for (int k = 0; k < 256; k++) z.p[i][k] = (int32_t)modq((int64_t)z.p[i][k] + y.p[i][k]); int q = infnorm(z.p[i]); if (q > zm) zm = q; }
    info->zmax = zm;
    if (o.tgt_poly >= 0) {
      if (centered(z.p[o.tgt_poly][o.tgt_coef]) != o.tgt_val) continue;
      int32_t keep = z.p[o.tgt_poly][o.tgt_coef]; z.p[o.tgt_poly][o.tgt_coef] = 0; int om = 0;
      for (int i = 0; i < 4; i++) { int q = infnorm(z.p[i]); if (q > om) om = q; }
      z.p[o.tgt_poly][o.tgt_coef] = keep;
      if (om >= GAMMA1 - BETA) { info->rej_z++; continue; }
      zm = 0;
    }
    if (zm >= GAMMA1 - BETA) { info->rej_z++; if (!o.skip_z) rej = true; }
    if (!o.skip_z && rej) continue;
    if (zm > GAMMA1) continue; // not encodable
    int w0m = 0, c0m = 0, hints = 0; uint8_t hb2[84]; memset(hb2, 0, 84);
    bool enc = true;
    for (int i = 0; i < 4; i++) {
      for (int k = 0; k < 256; k++) {
        int32_t h1, l0; decompose((int32_t)modq((int64_t)w.p[i][k] - cs2.p[i][k]), h1, l0); if (l0 < 0) l0 = -l0; if (l0 > w0m) w0m = l0;
      }
      int q = infnorm(ct0.p[i]); if (q > c0m) c0m = q;
      for (int k = 0; k < 256; k++) {
        int32_t r = (int32_t)modq((int64_t)w.p[i][k] - cs2.p[i][k] + ct0.p[i][k]), vz = (int32_t)modq((int64_t)w.p[i][k] - cs2.p[i][k]);
        (void)vz; if (highbits(r) != w1.p[i][k]) { if (hints < OMEGA) hb2[hints] = (uint8_t)k; else enc = false; hints++; }
      }
      hb2[80 + i] = (uint8_t)(hints <= OMEGA ? hints : OMEGA);
    }
    info->hints = hints;
    // NB: the w0 test in the spec is on LowBits(w - cs2)
    if (w0m >= GAMMA2 - BETA) { info->rej_w0++; if (!o.skip_w0) continue; }
    if (c0m >= GAMMA2) { info->rej_ct0++; if (!o.skip_ct0) continue; }
    if (hints > OMEGA) { info->rej_hint++; continue; }
    (void)enc;
    memcpy(sig, ct, 32);
    Vec zc; for (int i = 0; i < 4; i++) for (int k = 0; k < 256; k++) zc.p[i][k] = centered(z.p[i][k]);
    for (int i = 0; i < 4; i++) for (int k = 0; k < 256; k++) if (zc.p[i][k] <= -GAMMA1) return false;
    pack_z(sig, zc); memcpy(sig + 2336, hb2, 84);
    return true;
  }
  return false;
}
bool unpack_hint(const uint8_t* h, uint8_t bits[4][256]) {
  memset(bits, 0, 1024); unsigned k = 0;
  for (int i = 0; i < 4; i++) {
    unsigned e = h[80 + i]; if (e < k || e > 80) return false;
    for (unsigned j = k; j < e; j++) { if (j > k && h[j] <= h[j-1]) return false; bits[i][h[j]] = 1; }
    k = e;
  }
  for (unsigned j = k; j < 80; j++) if (h[j]) return false;
  return true;
}
Verdict verify_why(const uint8_t pk[1312], const uint8_t* m, size_t n, const uint8_t sig[2420]) {
  uint8_t hints[4][256]; if (!unpack_hint(sig + 2336, hints)) return BAD_HINT;
  Vec z; unpack_z(sig, z);
  for (int i = 0; i < 4; i++) for (int k = 0; k < 256; k++) { int32_t a = z.p[i][k]; if (a < 0) a = -a; if (a >= GAMMA1 - BETA) return BAD_NORM; }
  uint8_t tr[64], mu[64]; shake256(pk, 1312, tr, 64);
  Bytes b(64 + n); memcpy(&b[0], tr, 64); if (n) memcpy(&b[64], m, n); shake256(b.data(), b.size(), mu, 64);
  static thread_local Poly A[4][4]; expandA(pk, A);
  for (int i = 0; i < 4; i++) { for (int k = 0; k < 256; k++) z.p[i][k] = (int32_t)modq(z.p[i][k]); ntt(z.p[i]); }
  Poly c; challenge(sig, c); for (int k = 0; k < 256; k++) c[k] = (int32_t)modq(c[k]); ntt(c);
  Bytes hb(64 + 768); memcpy(&hb[0], mu, 64);
  for (int i = 0; i < 4; i++) {
    Poly t1; unpackp(t1, pk + 32 + 320*i, 10, -1); for (int k = 0; k < 256; k++) t1[k] = (int32_t)(((int64_t)t1[k] << D) % Q); ntt(t1);
    Poly w; for (int k = 0; k < 256; k++) { int64_t a = 0; for (int j = 0; j < 4; j++) a += (int64_t)A[i][j][k]*z.p[j][k] % Q; a -= (int64_t)c[k]*t1[k] % Q; w[k] = (int32_t)modq(a); }
    intt(w); for (int k = 0; k < 256; k++) w[k] = use_hint(hints[i][k], w[k]);
    packp(&hb[64 + 192*i], w, 6, -1);
  }
  uint8_t ct[32]; shake256(hb.data(), hb.size(), ct, 32);
  return memcmp(ct, sig, 32) ? BAD_CHALLENGE : OK;
}
// Signature under a public key whose t1 is zero: then w' = A*z does not depend on the challenge, so any z within the
// bound and any canonical hint vector complete to a valid signature.  w'[ti][tk] is steered to the value `target`.
bool free_sign(const uint8_t pk[1312], const uint8_t* m, size_t n, const FreeOpts& o, uint8_t sig[2420], FreeInfo* info) {
  FreeInfo di; if (!info) info = &di;
  static thread_local Poly A[4][4], C[4][4]; expandA(pk, A);
  uint64_t st = o.salt; auto rnd = [&]() { st += 0x9e3779b97f4a7c15ULL; uint64_t x = st; x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ULL; x = (x ^ x >> 27) * 0x94d049bb133111ebULL; return x ^ x >> 31; };
  const int B = GAMMA1 - BETA - 1; Vec z;
  for (int i = 0; i < 4; i++) for (int k = 0; k < 256; k++) { int v; switch (o.zkind) { case 0: v = (int)(rnd() % (2*B + 1)) - B; break; case 1: v = rnd() & 1 ? B : -B; break; case 2: v = 0; break; case 3: v = (int)(rnd() % 3) - 1; break; case 4: v = B; break; default: v = -B; } z.p[i][k] = v; }
  if (o.setz) z.p[o.zp][o.zc] = o.zv;
  if (o.target >= 0) {   // solve for one coefficient of z, vary another until the solution is small
    int i = o.ti, k = o.tk; for (int j = 0; j < 4; j++) { memcpy(C[i][j], A[i][j], sizeof(Poly)); intt(C[i][j]); }
    auto co = [&](int j, int l) { int d = k - l; return d >= 0 ? (int64_t)C[i][j][d] : (int64_t)(Q - C[i][j][d + 256]) % Q; };
    int ja = (int)(rnd() % 4), la = (int)(rnd() % 256), jb, lb; do { jb = (int)(rnd() % 4); lb = (int)(rnd() % 256); } while ((jb == ja && lb == la) || (o.setz && jb == o.zp && lb == o.zc) || co(jb, lb) == 0); if (o.setz && ja == o.zp && la == o.zc) return false;
    int64_t w = 0; for (int j = 0; j < 4; j++) for (int l = 0; l < 256; l++) if (!(j == ja && l == la) && !(j == jb && l == lb)) w = (w + co(j, l) * modq(z.p[j][l])) % Q;
    int64_t inv = powq(co(jb, lb), Q - 2); bool ok = false;
    for (int t = 0; t < 4000 && !ok; t++) { int v = (int)(rnd() % (2*B + 1)) - B; int64_t x = modq((o.target - w - co(ja, la) * modq(v)) % Q) * inv % Q; int32_t c = centered((int32_t)x); if (c >= -B && c <= B) { z.p[ja][la] = v; z.p[jb][lb] = c; ok = true; } }
    if (!ok) return false;
  }
  Vec zh = z, w; for (int i = 0; i < 4; i++) { for (int k = 0; k < 256; k++) zh.p[i][k] = (int32_t)modq(zh.p[i][k]); ntt(zh.p[i]); }
  for (int i = 0; i < 4; i++) { for (int k = 0; k < 256; k++) { int64_t a = 0; for (int j = 0; j < 4; j++) a += (int64_t)A[i][j][k]*zh.p[j][k] % Q; w.p[i][k] = (int32_t)(a % Q); } intt(w.p[i]); }
  if (o.target >= 0 && w.p[o.ti][o.tk] != o.target) abort();
  // hints: the steered coefficient (when asked), then the most unusual coefficients, then random ones
  uint8_t h[4][256]; memset(h, 0, sizeof h); int left = o.hints;
  if (o.target >= 0 && o.hint_target && left) { h[o.ti][o.tk] = 1; left--; }
  for (int i = 0; i < 4; i++) for (int k = 0; k < 256; k++) { int32_t a1, a0; decompose(w.p[i][k], a1, a0); bool odd = a0 == 0 || a0 == 1 || a0 == -1 || std::abs(a0) >= GAMMA2 - 1 || ((a1 == 0 || a1 == 43) && rnd() % 4 == 0); if (odd) info->edges++; if (odd && left && !h[i][k] && (rnd() & 3)) { h[i][k] = 1; left--; } }
  if (o.cluster) { for (int k = 0; k < 256 && left; k++) if (!h[o.ti][k]) { h[o.ti][k] = 1; left--; } }
  while (left > 0) { int i = (int)(rnd() % 4), k = (int)(rnd() % 256); if (rnd() % 8 == 0) k = rnd() & 1 ? 255 : 0; if (!h[i][k]) { h[i][k] = 1; left--; } }
  uint8_t* hp = sig + 2336;
  if (o.rawhint) {       // these bytes instead, read the way a decoder without checks would
    memcpy(hp, o.rawhint, 84); memset(h, 0, sizeof h); unsigned k = 0; for (int i = 0; i < 4; i++) { unsigned e = hp[80 + i]; for (unsigned j = k; j < e && j < 84; j++) h[i][hp[j]] = 1; k = e; }
  } else { memset(hp, 0, 84); int c = 0; for (int i = 0; i < 4; i++) { for (int k = 0; k < 256; k++) if (h[i][k]) hp[c++] = (uint8_t)k; hp[80 + i] = (uint8_t)c; } }
  pack_z(sig, z);
  uint8_t tr[64], mu[64]; shake256(pk, 1312, tr, 64); Bytes b(64 + n); memcpy(&b[0], tr, 64); if (n) memcpy(&b[64], m, n); shake256(b.data(), b.size(), mu, 64);
  Bytes hb(64 + 768); memcpy(&hb[0], mu, 64); for (int i = 0; i < 4; i++) { Poly u; for (int k = 0; k < 256; k++) u[k] = use_hint(h[i][k], w.p[i][k]); packp(&hb[64 + 192*i], u, 6, -1); }
  shake256(hb.data(), hb.size(), sig, 32); return true;
}
} // dil
// ================================================================ SPHINCS+
namespace spx {
enum { T_WOTS = 0, T_WOTSPK = 1, T_TREE = 2, T_FORS = 3, T_FORSPK = 4, T_WOTSPRF = 5, T_FORSPRF = 6 };
struct Adr { // 32-byte address, big-endian words: layer | tree(12) | type | w5 w6 w7
  uint8_t b[32];
  Adr(uint32_t layer, uint64_t tree, uint32_t type, uint32_t w5, uint32_t w6, uint32_t w7) {
    memset(b, 0, 32); be(0, layer); be(8, (uint32_t)(tree >> 32)); be(12, (uint32_t)tree); be(16, type); be(20, w5); be(24, w6); be(28, w7);
  }
  void be(int o, uint32_t v) { b[o] = v >> 24; b[o+1] = v >> 16; b[o+2] = v >> 8; b[o+3] = v; }
};
static void F(uint8_t out[32], const uint8_t pub[32], const Adr& a, const uint8_t* in, size_t n) {
  if (n <= 64) { uint8_t buf[128]; memcpy(buf, pub, 32); memcpy(buf + 32, a.b, 32); memcpy(buf + 64, in, n); shake256(buf, 64 + n, out, 32); return; }
  Bytes buf(64 + n); memcpy(&buf[0], pub, 32); memcpy(&buf[32], a.b, 32); memcpy(&buf[64], in, n); shake256(buf.data(), buf.size(), out, 32);
}
struct Key { const uint8_t *skseed, *pub; };
static void chain(uint8_t x[32], int from, int to, const uint8_t* pub, uint32_t layer, uint64_t tree, uint32_t kp, uint32_t ch) {
  for (int k = from; k < to; k++) F(x, pub, Adr(layer, tree, T_WOTS, kp, ch, (uint32_t)k), x, 32);
}
static void wots_digits(const uint8_t m[32], int d[67]) {
  int cs = 0; for (int i = 0; i < 64; i++) { d[i] = i & 1 ? m[i/2] & 15 : m[i/2] >> 4; cs += 15 - d[i]; }
  d[64] = cs >> 8 & 15; d[65] = cs >> 4 & 15; d[66] = cs & 15;
}
static void wots_leaf(uint8_t out[32], const Key& k, uint32_t layer, uint64_t tree, uint32_t kp, const int* digits, uint8_t* sig) {
  uint8_t pkb[67*32];
  for (int i = 0; i < 67; i++) {
    uint8_t* x = pkb + 32*i; F(x, k.pub, Adr(layer, tree, T_WOTSPRF, kp, (uint32_t)i, 0), k.skseed, 32);
    if (sig) { chain(x, 0, digits[i], k.pub, layer, tree, kp, (uint32_t)i); memcpy(sig + 32*i, x, 32); chain(x, digits[i], 15, k.pub, layer, tree, kp, (uint32_t)i); }
    else chain(x, 0, 15, k.pub, layer, tree, kp, (uint32_t)i);
  }
  F(out, k.pub, Adr(layer, tree, T_WOTSPK, kp, 0, 0), pkb, sizeof pkb);
}
// sign m with leaf kp of subtree (layer,tree); sig = wots || auth; returns subtree root.  kp<0: root only
static void xmss(uint8_t root[32], const Key& k, uint32_t layer, uint64_t tree, int kp, const uint8_t* m, uint8_t* sig) {
  uint8_t nodes[16][32]; int d[67]; if (kp >= 0) wots_digits(m, d);
  for (int i = 0; i < 16; i++) wots_leaf(nodes[i], k, layer, tree, (uint32_t)i, d, i == kp ? sig : nullptr);
  uint8_t* auth = sig ? sig + 67*32 : nullptr; int idx = kp;
  for (int h = 1; h <= 4; h++) {
    if (kp >= 0) { memcpy(auth + 32*(h-1), nodes[idx ^ 1], 32); idx >>= 1; }
    for (int i = 0; i < 16 >> h; i++) { uint8_t t[64]; memcpy(t, nodes[2*i], 32); memcpy(t + 32, nodes[2*i+1], 32); F(nodes[i], k.pub, Adr(layer, tree, T_TREE, 0, (uint32_t)h, (uint32_t)i), t, 64); }
  }
  memcpy(root, nodes[0], 32);
}
void keypair(const uint8_t seed[96], uint8_t pk[64], uint8_t sk[128]) {
  Key k = {seed, seed + 64}; uint8_t root[32]; xmss(root, k, DD - 1, 0, -1, nullptr, nullptr);
  memcpy(sk, seed, 96); memcpy(sk + 96, root, 32); memcpy(pk, seed + 64, 32); memcpy(pk + 32, root, 32);
}
void message_random(const uint8_t sk[128], const uint8_t optrand[32], const uint8_t* m, size_t n, uint8_t R[32]) {
  Bytes b(64 + n); memcpy(&b[0], sk + 32, 32); memcpy(&b[32], optrand, 32); if (n) memcpy(&b[64], m, n); shake256(b.data(), b.size(), R, 32);
}
void indices(const uint8_t R[32], const uint8_t pk[64], const uint8_t* m, size_t n, uint32_t fors[35], uint64_t* tree, uint32_t* leaf) {
  Bytes b(96 + n); memcpy(&b[0], R, 32); memcpy(&b[32], pk, 64); if (n) memcpy(&b[96], m, n);
  uint8_t d[49]; shake256(b.data(), b.size(), d, 49);  // 40 + 8 + 1
  for (int i = 0; i < 35; i++) { fors[i] = 0; for (int j = 0; j < 9; j++) { int bit = 9*i + j; fors[i] = fors[i] << 1 | (d[bit/8] >> (7 - bit%8) & 1); } }
  *tree = 0; for (int i = 0; i < 8; i++) *tree = *tree << 8 | d[40+i];
  *leaf = d[48] & 15;
}
void sign(const uint8_t sk[128], const uint8_t optrand[32], const uint8_t* m, size_t n, uint8_t* sig) {
  Key k = {sk, sk + 64}; uint32_t fi[35], leaf; uint64_t tree;
  message_random(sk, optrand, m, n, sig); indices(sig, sk + 64, m, n, fi, &tree, &leaf); sig += 32;
  uint8_t roots[35*32]; static thread_local uint8_t nd[512][32];
  for (uint32_t t = 0; t < 35; t++) {
    for (uint32_t i = 0; i < 512; i++) {
      uint32_t ix = t*512 + i; uint8_t s[32]; F(s, k.pub, Adr(0, tree, T_FORSPRF, leaf, 0, ix), k.skseed, 32);
      if (i == fi[t]) memcpy(sig, s, 32);
      F(nd[i], k.pub, Adr(0, tree, T_FORS, leaf, 0, ix), s, 32);
    }
    sig += 32; uint32_t id = fi[t];
    for (uint32_t h = 1; h <= 9; h++) {
      memcpy(sig, nd[id ^ 1], 32); sig += 32; id >>= 1;
      for (uint32_t i = 0; i < 512u >> h; i++) { uint8_t tt[64]; memcpy(tt, nd[2*i], 32); memcpy(tt+32, nd[2*i+1], 32); F(nd[i], k.pub, Adr(0, tree, T_FORS, leaf, h, t*(512u >> h) + i), tt, 64); }
    }
    memcpy(roots + 32*t, nd[0], 32);
  }
  uint8_t root[32]; F(root, k.pub, Adr(0, tree, T_FORSPK, leaf, 0, 0), roots, sizeof roots);
  for (uint32_t l = 0; l < 17; l++) {
    uint8_t nr[32]; xmss(nr, k, l, tree, (int)leaf, root, sig); memcpy(root, nr, 32); sig += 67*32 + 4*32;
    leaf = tree & 15; tree >>= 4;
  }
}
bool verify(const uint8_t pk[64], const uint8_t* m, size_t n, const uint8_t* sig, size_t siglen) {
  if (siglen != SIGLEN) return false;
  const uint8_t* pub = pk; uint32_t fi[35], leaf; uint64_t tree; indices(sig, pk, m, n, fi, &tree, &leaf); sig += 32;
  uint8_t roots[35*32];
  for (uint32_t t = 0; t < 35; t++) {
    uint8_t x[32]; uint32_t id = fi[t]; F(x, pub, Adr(0, tree, T_FORS, leaf, 0, t*512 + id), sig, 32); sig += 32;
    for (uint32_t h = 1; h <= 9; h++) {
      uint8_t tt[64]; memcpy(tt + (id & 1 ? 32 : 0), x, 32); memcpy(tt + (id & 1 ? 0 : 32), sig, 32); sig += 32; id >>= 1;
      F(x, pub, Adr(0, tree, T_FORS, leaf, h, t*(512u >> h) + id), tt, 64);
    }
    memcpy(roots + 32*t, x, 32);
  }
  uint8_t root[32]; F(root, pub, Adr(0, tree, T_FORSPK, leaf, 0, 0), roots, sizeof roots);
  for (uint32_t l = 0; l < 17; l++) {
    int d[67]; wots_digits(root, d); uint8_t pkb[67*32];
    for (int i = 0; i < 67; i++) { memcpy(pkb + 32*i, sig + 32*i, 32); chain(pkb + 32*i, d[i], 15, pub, l, tree, leaf, (uint32_t)i); }
    sig += 67*32; uint8_t x[32]; F(x, pub, Adr(l, tree, T_WOTSPK, leaf, 0, 0), pkb, sizeof pkb);
    uint32_t id = leaf;
    for (uint32_t h = 1; h <= 4; h++) { uint8_t tt[64]; memcpy(tt + (id & 1 ? 32 : 0), x, 32); memcpy(tt + (id & 1 ? 0 : 32), sig, 32); sig += 32; id >>= 1; F(x, pub, Adr(l, tree, T_TREE, 0, h, id), tt, 64); }
    memcpy(root, x, 32); leaf = tree & 15; tree >>= 4;
  }
  return !memcmp(root, pk + 32, 32);
}
} // spx
// ================================================================ hybrid
void hy_keypair(const uint8_t seed[160], uint8_t* pk, uint8_t* sk) {
  ed_keypair(seed, pk, sk);
  dil::keypair(seed + 32, pk + 32, sk + 64); memcpy(sk + 64 + 2560, pk + 32, 1312);
  spx::keypair(seed + 64, pk + 1344, sk + 3936);
}
void hy_digest(const uint8_t nonce[40], const uint8_t* m, size_t n, const uint8_t spxpk[64], uint8_t out[64]) {
  Bytes b(40 + n + 64); memcpy(&b[0], nonce, 40); if (n) memcpy(&b[40], m, n); memcpy(&b[40+n], spxpk, 64); sha3_512(b.data(), b.size(), out);
}
Bytes hy_sign_full(const uint8_t* sk, const uint8_t* m, size_t n, const uint8_t optrand[32]) {
  Bytes s(2 + 64 + n + 2420 + spx::SIGLEN); s[0] = 2; s[1] = (uint8_t)n; ed_sign(sk, m, n, &s[2]); memcpy(&s[66], m, n);
  dil::sign(sk + 64, m, n, &s[66+n]); spx::sign(sk + 3936, optrand, m, n, &s[66+n+2420]); return s;
}
Bytes hy_sign_compact(const uint8_t* sk, const uint8_t* m, size_t n, const uint8_t nonce[40]) {
  Bytes s(2 + 64 + 2420 + 40 + n); uint8_t d[64]; hy_digest(nonce, m, n, sk + 4000, d); s[0] = 1; s[1] = (uint8_t)n;
  ed_sign(sk, d, 64, &s[2]); dil::sign(sk + 64, d, 64, &s[66]); memcpy(&s[2486], nonce, 40); memcpy(&s[2526], m, n); return s;
}
bool hy_open_full(const uint8_t* sm, uint64_t n, const uint8_t* pk, Bytes* m) {
  if (n < FULL_MIN || n > FULL_MAX || sm[0] != 2 || sm[1] < 1 || sm[1] > 64 || n != 52342u + sm[1]) return false;
  size_t l = sm[1]; const uint8_t* msg = sm + 66;
  if (!ed_verify(pk, msg, l, sm + 2) || !dil::verify(pk + 32, msg, l, sm + 66 + l) || !spx::verify(pk + 1344, msg, l, sm + 66 + l + 2420, spx::SIGLEN)) return false;
  if (m) m->assign(msg, msg + l);
  return true;
}
bool hy_open_compact(const uint8_t* sm, uint64_t n, const uint8_t* pk, Bytes* m) {
  if (n < COMPACT_MIN || n > COMPACT_MAX || sm[0] != 1 || sm[1] < 1 || sm[1] > 64 || n != 2526u + sm[1]) return false;
  size_t l = sm[1]; uint8_t d[64]; hy_digest(sm + 2486, sm + 2526, l, pk + 1344, d);
  if (!ed_verify(pk, d, 64, sm + 2) || !dil::verify(pk + 32, d, 64, sm + 66)) return false;
  if (m) m->assign(sm + 2526, sm + 2526 + l);
  return true;
}
Bytes seedexpander(const Bytes& seed, size_t outlen) { Bytes t(seed); t.push_back(2); return shake256v(t, outlen); }
void hy_expand_seed(const uint8_t seed[96], uint8_t out[160], bool as_documented) {
  Bytes s(seed, seed + 64); if (!as_documented) for (int i = 1; i < 64; i += 2) s[i] = 0;
  Bytes x = seedexpander(s, 128); memcpy(out, &x[0], 32); memcpy(out + 32, seed + 64, 32); memcpy(out + 64, &x[32], 96);
}
}
