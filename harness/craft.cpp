#include "craft.h"
#include <algorithm>
using namespace ref;
static Bytes ed_with_R(const Key& k, const Bytes& m, const uint8_t R[32], const uint8_t r[32]) {
  uint8_t h[64]; sha512(k.sk.data(), 32, h); h[0] &= 248; h[31] &= 127; h[31] |= 64;
  Bytes t(R, R + 32); t.insert(t.end(), k.pk.begin(), k.pk.begin() + 32); t.insert(t.end(), m.begin(), m.end());
  uint8_t d[64], kk[32], S[32]; sha512(t.data(), t.size(), d); sc_reduce64(d, kk); sc_muladd(kk, h, r, S);
  Bytes o(R, R + 32); o.insert(o.end(), S, S + 32); return o;
}
Bytes craft_ed_flipR(const Key& k, const Bytes& m, const Bytes& r0, unsigned pos, uint8_t mask) {
  uint8_t w[64] = {0}, r[32], R[32]; memcpy(w, r0.data(), 32); sc_reduce64(w, r); ed_scalarbase(r, R); R[pos % 32] ^= mask; return ed_with_R(k, m, R, r);
}
Bytes craft_ed_zeroR(const Key& k, const Bytes& m, uint64_t salt, unsigned pos, uint8_t mask) {
  uint8_t w[64] = {0}, r[32], R[32]; Prng p(salt);
  for (int i = 0; i < 3000; i++) { p.fill(w, 32); sc_reduce64(w, r); ed_scalarbase(r, R); if (R[0] == 0) break; }
  R[pos % 32] ^= mask; return ed_with_R(k, m, R, r);
}
Bytes craft_dil_flipC(const Key& k, const Bytes& m, unsigned pos, uint8_t mask) {
  dil::SignOpts o; o.flip_ct_byte = pos % 32; o.flip_ct_mask = mask; Bytes s(DILS); if (!dil::sign(k.sk.data() + SK_DIL, m.data(), m.size(), s.data(), o)) return Bytes(); return s;
}
Bytes craft_dil_z(const Key& k, const Bytes& m, int poly, int coef, int val) {
  dil::SignOpts o; o.tgt_poly = poly; o.tgt_coef = coef; o.tgt_val = val; Bytes s(DILS); if (!dil::sign(k.sk.data() + SK_DIL, m.data(), m.size(), s.data(), o)) return Bytes(); return s;
}
Bytes craft_dil_hint(const Bytes& sig, unsigned kind, unsigned which, unsigned val) {
  Bytes s = sig; uint8_t* h = s.data() + DILS - 84; unsigned tot = h[83];
  unsigned start[5] = {0, h[80], h[81], h[82], h[83]};
  switch (kind) {
    case 0: {  // swap two neighbouring positions of one polynomial (not increasing)
      for (unsigned t = 0; t < 4; t++) { unsigned i = (which + t) % 4; if (start[i + 1] - start[i] >= 2) { unsigned p = start[i] + val % (start[i + 1] - start[i] - 1); std::swap(h[p], h[p + 1]); return s; } }
      return Bytes();
    }
    case 1: {  // repeat a position: same hint set, one entry more
      if (tot >= 80 || tot == 0) return Bytes();
      for (unsigned t = 0; t < 4; t++) { unsigned i = (which + t) % 4; if (start[i + 1] > start[i]) { unsigned p = start[i] + val % (start[i + 1] - start[i]); memmove(h + p + 1, h + p, tot - p); for (unsigned j = i; j < 4; j++) h[80 + j]++; return s; } }
      return Bytes();
    }
    case 2: if (tot >= 80) return Bytes(); h[tot + which % (80 - tot)] = 1 + val % 255; return s;       // non-zero padding
    case 3: {  // count of one polynomial decreased below the previous one
      unsigned i = 1 + which % 3; if (h[80 + i - 1] == 0) return Bytes(); h[80 + i] = h[80 + i - 1] - 1; return s;
    }
    case 4: h[80 + which % 4] = 81 + val % 175; return s;                                                  // count above omega
    case 5: if (tot >= 80) return Bytes(); h[79] = 1 + val % 255; return s;                                // only the last padding byte
  }
  return Bytes();
}
Key craft_spx_badroot(const Key& k, unsigned pos, uint8_t mask) { Key x = k; x.sk[SK_SPX + 96 + pos % 32] ^= mask; x.pk[PK_SPX + 32 + pos % 32] ^= mask; return x; }
Key key_zero_root() {
  static Key k; static bool done = false; if (done) return k;
  k = pool_key(0); uint8_t s[96], pk[64], sk[128];
  extern const unsigned kZeroRootSeed; Prng(0x20007 + kZeroRootSeed).fill(s, 96); B::spx_keypair(s, pk, sk);
  memcpy(k.sk.data() + SK_SPX, sk, 128); memcpy(k.pk.data() + PK_SPX, pk, 64); done = true; return k;
}
extern const unsigned kZeroRootSeed; const unsigned kZeroRootSeed = 25;
std::string craft_dil_free(Gen& g, const Bytes& m, Bytes* pk, Bytes* sig) {
  using namespace ref::dil; FreeOpts o; o.salt = g.u64(); pk->assign(1312, 0); Prng(mix64(g.u(64) + 4242)).fill(pk->data(), 32); sig->resize(DILS);
  static const int zk[] = {0, 0, 0, 0, 1, 2, 3, 4, 5}; o.zkind = zk[g.u(9)]; static const int hs[] = {0, 1, 2, 79, 80, 80, 40}; unsigned hk = g.u(8); o.hints = hk < 7 ? hs[hk] : g.u(81); o.cluster = g.u(6) == 5;
  std::string d = strf("z%d", o.zkind);
  if (g.u(3)) {   // steer one coefficient of w' to an edge
    static const int lo[] = {0, 1, -1, GAMMA2, GAMMA2 - 1, -GAMMA2 + 1, -GAMMA2 + 2, GAMMA2 + 1, GAMMA2 - 78, -(GAMMA2 - 78)}; int a1 = g.u(2) ? (int)g.u(44) : (int[]){0, 43, 1, 42}[g.u(4)]; unsigned li = g.u(10); int64_t a = (int64_t)a1 * 2 * GAMMA2 + lo[li]; if (g.u(6) == 0) a = (int64_t)Q - 1 - (int)g.u(3); if (g.u(8) == 0) a = Q - 1 - GAMMA2 + (int)g.u(3) - 1;
    a %= Q; if (a < 0) a += Q; o.target = (int32_t)a; o.ti = g.u(4); o.tk = g.u(4) ? g.u(256) : 255 * g.u(2); o.hint_target = g.u(3) != 0; d += strf(" w'=%d%s", o.target, o.hint_target && o.hints ? " hinted" : "");
  } else if (g.u(2)) { o.setz = true; o.zp = g.u(4); o.zc = g.u(2) ? g.u(256) : 255 * g.u(2); int b = GAMMA1 - BETA; int v = (int[]){b - 1, b - 1, b - 2, b, b, b + 1, GAMMA1 - 1, GAMMA1}[g.u(8)]; o.zv = v == GAMMA1 ? v : g.u(2) ? v : -v; d += strf(" z%+d", std::abs(o.zv) - b); }
  uint8_t raw[84];
  if (g.u(3) == 0) {   // a hint encoding that breaks one rule (or none), valid for a decoder that does not check it
    memset(raw, 0, 84); unsigned c[4], tot = g.u(4) ? g.u(81) : 80 - g.u(2); unsigned cut[3]; for (unsigned& x : cut) x = (unsigned)g.u(tot + 1); std::sort(cut, cut + 3); c[0] = cut[0]; c[1] = cut[1]; c[2] = cut[2]; c[3] = tot; if (g.u(4) == 0) c[0] = c[1] = c[2] = g.u(2) ? tot : 0;
    for (int i = 0; i < 4; i++) { unsigned a = i ? c[i - 1] : 0, n = c[i] - a; std::vector<uint8_t> v; Prng r(g.u64()); while (v.size() < n) { uint8_t x = (uint8_t)r.next(); if (!std::count(v.begin(), v.end(), x)) v.push_back(x); } std::sort(v.begin(), v.end()); std::copy(v.begin(), v.end(), raw + a); raw[80 + i] = (uint8_t)c[i]; }
    unsigned rk = g.u(8); int i = g.u(4);
    if (rk == 1) { unsigned a = i ? raw[79 + i] : 0, n = raw[80 + i] - a; if (n < 2) g.discard(); unsigned j = a + g.u(n - 1); if (g.u(3) == 0) j = a; if (g.u(2)) std::swap(raw[j], raw[j + 1]); else raw[j + 1] = raw[j]; }                       // order
    else if (rk == 2) { if (tot == 80) g.discard(); raw[tot + (g.u(2) ? g.u(80 - tot) : g.u(2) ? 0 : 79 - tot)] = (uint8_t)(1 + g.u(255)); }                          // padding
    else if (rk == 3) { if (i == 0) i = 3; unsigned a = raw[79 + i]; if (!a) g.discard(); raw[80 + i] = (uint8_t)(a - 1 - g.u(g.u(2) ? 1 : a)); if (i == 3) memset(raw + raw[83], 0, 80 - raw[83]); }   // counts decrease
    else if (rk == 4) { for (int q = i; q < 4; q++) raw[80 + q] = (uint8_t)(81 + g.u(4)); std::sort(raw + 80 + i, raw + 84); }                                          // too many
    else if (rk == 5) { raw[80 + i] = (uint8_t)(81 + g.u(4)); }                                                                                                          // one count too large
    else if (rk == 6) { for (int t = 1 + g.u(3); t > 0; t--) { unsigned p = g.u(84); raw[p] = p < 80 ? (uint8_t)g.u(256) : (uint8_t)g.u(85); } }
    o.rawhint = raw; d += strf(" raw%u", rk);
  }
  if (!free_sign(pk->data(), m.data(), m.size(), o, sig->data())) g.discard();
  return d + strf(" %d hints", o.hints);
}
