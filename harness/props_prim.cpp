// C16-C22, C24: the component schemes and primitives against the reference.
#include "craft.h"
#include <algorithm>
#include <sys/mman.h>
using namespace ref;
typedef std::string S;

static Bytes slice(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
static Bytes cat(const Bytes& a, const Bytes& b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static Bytes dpk(const Key& k) { return slice(k.pk, PK_DIL, 1312); }
static Bytes dsk(const Key& k) { return slice(k.sk, SK_DIL, 2560); }
static Bytes damage(Gen& g, Bytes b, S* how) {
  if (b.empty()) return b;
  switch (g.u(7)) {
    case 5: { size_t p = g.u(b.size()), l = std::min<size_t>(b.size() - p, 1 + g.u(g.u(2) ? 8 : 200)); Bytes o = b; memset(b.data() + p, g.u(2) ? 0 : 0xff, l); if (b == o) b[p] ^= 1; *how = "fill"; break; }
    case 0: { size_t p = g.u(b.size()); b[p] ^= 1u << g.u(8); *how = "bit"; break; }
    case 1: { size_t p = g.u(b.size()); b[p] ^= 1 + g.u(255); *how = "byte"; break; }
    case 2: { size_t p = b.size() - 1 - g.u(std::min<size_t>(b.size(), 40)); b[p] ^= 1u << g.u(8); *how = "tail"; break; }
    case 3: { size_t p = g.u(std::min<size_t>(b.size(), 40)); b[p] ^= 1u << g.u(8); *how = "head"; break; }
    case 4: { Bytes r = g.bytes(b.size()); if (r == b) r[0] ^= 1; b = r; *how = "replaced"; break; }
    default: { size_t p = g.u(b.size()), q = g.u(b.size()); b[p] ^= 0x80; if (q != p) b[q] ^= 0x80; *how = "two"; }
  }
  return b;
}
// message lengths around the hash block boundaries each scheme meets
static Bytes any_msg(Gen& g, size_t hi = 700) { return g.bytes(g.len(0, hi, {31, 32, 40, 63, 64, 71, 72, 96, 103, 104, 111, 112, 127, 128, 135, 136, 168, 175, 176, 239, 240, 256, 272, 336, 512})); }

// ------------------------------------------------------------------------------------------ C16 Dilithium
static void c16_keygen(Gen& g) {
  Bytes seed = g.bytes(32), epk(1312), esk(2560); dil::keypair(seed.data(), epk.data(), esk.data()); bool left = g.u(2), viarng = g.u(3) == 2;
  GBuf pk(1312, 0xA5, left), sk(2560, 0xA5, left), sd(seed, true, left); int rc;
  if (viarng) { rng_queue(seed); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair(pk, sk); } else rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed(pk, sk, sd);
  pk.check("public key"); sk.check("secret key");
  CHECK(rc == 0, "Dilithium key generation returned %d", rc);
  CHECK(pk.is(epk), "Dilithium public key differs from the specification for seed %s", hex(seed, 32).c_str()); CHECK(sk.is(esk), "Dilithium secret key differs from the specification for seed %s", hex(seed, 32).c_str());
  g.label(viarng ? "random" : "seeded"); g.nontrivial(hash64(seed)); g.desc("dilithium keygen seed %s", hex(seed, 16).c_str());
}
static void c16_sign(Gen& g) {
  Bytes seed = g.bytes(32); Key k; Bytes pk(1312), sk(2560);
  if (g.u(3)) { k = pool_key(g.u(8)); pk = dpk(k); sk = dsk(k); } else dil::keypair(seed.data(), pk.data(), sk.data());
  Bytes m = any_msg(g), e(DILS); dil::SignInfo inf; CHECK(dil::sign(sk.data(), m.data(), m.size(), e.data(), dil::SignOpts(), &inf), "harness: reference found no signature");
  unsigned form = g.u(5); size_t n = m.size(); int rc; S fm;
  if (form == 0) { GBuf s(DILS), sl(8), mm(m), kk(sk); memset(sl.p, 0xD7, 8); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(s, (size_t*)sl.p, mm, n, kk); s.check("signature"); CHECK(rc == 0 && *(size_t*)sl.p == DILS && s.is(e), "Dilithium signature of a %zu-byte message differs from the specification (attempts %d, rc %d)", n, inf.attempts, rc); fm = "detached"; }
  else if (form <= 2) {   // attached, message elsewhere or at the start of the output buffer
    bool inplace = form == 2; Bytes init(DILS + n, 0xA5); if (inplace) std::copy(m.begin(), m.end(), init.begin()); GBuf s(init, false), sl(8), mm(m), kk(sk);
    rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign(s, (size_t*)sl.p, inplace ? s.p : mm.p, n, kk); s.check("signed message"); CHECK(rc == 0 && *(size_t*)sl.p == DILS + n && s.is(cat(e, m)), "Dilithium signed message differs from the specification (%zu-byte message%s, rc %d)", n, inplace ? ", in place" : "", rc); fm = inplace ? "attached in place" : "attached";
  } else {                // opening, separate or in place
    bool inplace = form == 4; Bytes sm = cat(e, m); GBuf s(sm, !inplace), ml(8), out(n), p(pk); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(inplace ? s.p : out.p, (size_t*)ml.p, s, sm.size(), p);
    CHECK(rc == 0 && *(size_t*)ml.p == n && (n == 0 || !memcmp(inplace ? s.p : out.p, m.data(), n)), "Dilithium open of a specification-conformant signature failed (%zu-byte message%s, rc %d)", n, inplace ? ", in place" : "", rc); out.check("message"); fm = inplace ? "open in place" : "open";
  }
  GBuf s(e), mm(m), p(pk); CHECK(PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(s, DILS, mm, n, p) == 0, "Dilithium verify rejects a specification-conformant signature");
  g.label(fm); g.label(inf.attempts > 8 ? "attempts>8" : inf.attempts > 1 ? "attempts 2-8" : "attempts 1"); if (inf.hints >= 78) g.label("hints>=78"); if (inf.rej_hint) g.label("hint rejection"); if (inf.rej_w0) g.label("low-bits rejection");
  g.nontrivial(hash64(m, hash64(sk))); g.desc("dilithium %s: %zu-byte message, %d attempts, %d hints", fm.c_str(), n, inf.attempts, inf.hints);
}
// secret keys with an extreme t0 part: makes the c*t0 bound and the hint count matter
static void c16_t0(Gen& g) {
  Key k = pool_key(g.u(8)); Bytes sk = dsk(k), m = g.bytes(g.len(0, 100)); unsigned kind = g.u(4); Prng r(g.u64()); unsigned polys = 1 + g.u(15); bool longrun = g.u(4) == 3; if (longrun) { polys = g.u(2) ? 15 : 15 ^ (1u << g.u(4)); kind = g.u(2); } int mag = longrun && kind ? 3600 + (int)g.u(497) : kind == 0 ? 4096 : kind == 1 ? 4095 : kind == 2 ? 3000 + (int)g.u(1096) : 4096;
  size_t off = 2560 - 4 * 416;                    // t0: 13 bits per coefficient, stored as 4096 - t0
  for (int p = 0; p < 4; p++) if (polys >> p & 1) for (int c = 0; c < 256; c++) {
    int t = r.next() & 1 ? mag : -(mag == 4096 ? 4095 : mag); if (kind == 3 && c % 2) t = (int)(r.next() % 8192) - 4095;
    unsigned v = 4096 - t; size_t bit = (size_t)c * 13; uint8_t* q = sk.data() + off + p * 416;
    for (int b = 0; b < 13; b++) { uint8_t& x = q[(bit + b) / 8]; unsigned sh = (bit + b) % 8; x = (x & ~(1u << sh)) | ((v >> b & 1) << sh); }
  }
  Bytes e(DILS); dil::SignInfo inf; dil::SignOpts o; o.max_attempts = longrun ? 1200 : 200; if (!dil::sign(sk.data(), m.data(), m.size(), e.data(), o, &inf)) g.discard();
  GBuf s(DILS), sl(8), mm(m), kk(sk); int rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(s, (size_t*)sl.p, mm, m.size(), kk);
  CHECK(rc == 0 && s.is(e), "Dilithium signature with a well-formed secret key (extreme t0) differs from the specification (attempts %d, c*t0 rejections %d, hint rejections %d)", inf.attempts, inf.rej_ct0, inf.rej_hint);
  if (inf.attempts > 256) g.label("attempts>256"); else if (inf.attempts > 64) g.label("attempts 65-256"); if (inf.rej_ct0) g.label("ct0 rejection"); if (inf.rej_hint) g.label("hint rejection"); if (inf.hints >= 79) g.label("hints>=79");
  g.nontrivial(hash64(m, hash64(sk))); g.desc("extreme t0 (%d in polys %x): %d attempts, %d ct0 / %d hint rejections, %d hints", mag, polys, inf.attempts, inf.rej_ct0, inf.rej_hint, inf.hints);
}

// ------------------------------------------------------------------------------------------ C17
static int rand_bound(Gen& g) { int b = dil::GAMMA1 - dil::BETA; static const int d[] = {0, -1, 1, 2, 77, 78}; int v = b + d[g.u(6)]; if (v > dil::GAMMA1 - 1) v = dil::GAMMA1 - 1; return g.u(2) ? v : -v; }
static void c17(Gen& g) {
  Key k = gen_key(g); Bytes m = any_msg(g, 300), pk = dpk(k), sig; size_t siglen = DILS; S kind, h; unsigned w = g.sweep(24);
  if (w >= 16) { kind = "free " + craft_dil_free(g, m, &pk, &sig); }
  else switch (w) {
    case 0: sig = dil_sig(k, m); kind = "honest"; break;
    case 1: case 2: case 3: { int v = rand_bound(g); sig = craft_dil_z(k, m, g.u(4), g.u(256), v); if (sig.empty()) g.discard(); kind = strf("z=%+d", std::abs(v) - (dil::GAMMA1 - dil::BETA)); break; }
    case 4: sig = craft_dil_z(k, m, g.u(4), g.u(2) ? 255 * g.u(2) : g.u(256), g.u(2) ? dil::GAMMA1 : -(dil::GAMMA1 - 1)); if (sig.empty()) g.discard(); kind = "z=extreme"; break;
    case 5: sig = craft_dil_flipC(k, m, g.u(32), g.u(2) ? 1u << g.u(8) : 1 + g.u(255)); if (sig.empty()) g.discard(); kind = "challenge"; break;
    case 6: case 7: case 8: { unsigned q = g.u(6); sig = craft_dil_hint(dil_sig(k, m), q, g.u(80), g.u(256)); if (sig.empty()) g.discard(); kind = strf("hint%u", q); break; }
    case 9: sig = damage(g, dil_sig(k, m), &h); kind = "damaged-" + h; break;
    case 10: { sig = dil_sig(k, m); for (int i = 1 + g.u(6); i > 0; i--) sig[DILS - 84 + g.u(84)] = g.u(2) ? g.u(256) : g.u(90); kind = "hint-random"; break; }
    case 11: { sig = dil_sig(k, m); if (g.u(2)) { m = damage(g, m.empty() ? Bytes(1, 3) : m, &h); kind = "other message"; } else { if (m.size() && g.u(2)) m.pop_back(); else m.push_back(g.u(3)); kind = "message resized"; } break; }
    case 12: { sig = dil_sig(k, m); pk = damage(g, pk, &h); kind = "other key"; break; }
    case 13: { sig = dil_sig(k, m); size_t d = 1 + g.u(g.u(2) ? 3 : 2420); if (g.u(2)) { sig.resize(d > sig.size() ? 0 : sig.size() - d); } else sig.resize(sig.size() + d, (uint8_t)g.u(2)); siglen = sig.size(); kind = "length"; break; }
    case 14: { sig = g.bytes(DILS); memset(sig.data() + DILS - 84, 0, 84); if (g.u(2)) pk = g.bytes(1312); kind = "random, no hints"; break; }
    default: { dil::SignOpts o; o.start_nonce = 4 * (1 + g.u(500)); Bytes rp = g.bytes(64); if (g.u(2)) o.rhoprime = rp.data(); unsigned s = g.u(4); if (s == 1) o.skip_w0 = true; if (s == 2) o.skip_ct0 = true; if (s == 3) o.skip_z = true; sig.resize(DILS); if (!dil::sign(k.sk.data() + SK_DIL, m.data(), m.size(), sig.data(), o)) g.discard(); kind = strf("other signer%s", s == 1 ? " no-w0" : s == 2 ? " no-ct0" : s == 3 ? " no-z" : ""); }
  }
  g.splice(sig); g.splice(pk); siglen = sig.size();
  bool want = siglen == DILS && dil::verify(pk.data(), m.data(), m.size(), sig.data()); const char* why = siglen != DILS ? "length" : want ? "ok" : dil::verify_why(pk.data(), m.data(), m.size(), sig.data()) == dil::BAD_HINT ? "hint" : dil::verify_why(pk.data(), m.data(), m.size(), sig.data()) == dil::BAD_NORM ? "norm" : "challenge";
  bool left = g.u(3) == 2; GBuf s(sig, true, left), mm(m, true, left), p(pk, true, left); int rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(s, siglen, mm, m.size(), p);
  CHECK((rc == 0) == want, "Dilithium verify returned %d for a signature the specification %s (%s; reason %s)", rc, want ? "accepts" : "rejects", kind.c_str(), why);
  if (siglen == DILS) {
    Bytes sm = cat(sig, m); GBuf o(sm, true, left), out(m.size(), 0xA5, left), ml(8); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(out, (size_t*)ml.p, o, sm.size(), p);
    CHECK((rc == 0) == want, "Dilithium open returned %d for a signature the specification %s (%s)", rc, want ? "accepts" : "rejects", kind.c_str()); if (want) CHECK(*(size_t*)ml.p == m.size() && out.is(m), "Dilithium open returned another message");
  }
  g.label((kind.compare(0, 4, "free") ? kind.substr(0, kind.find_first_of("+")) : S("free")) + (want ? " accepted" : S(" rejected:") + why)); g.nontrivial(hash64(sig, hash64(m, hash64(pk)))); g.desc("dilithium verify %s, %zu-byte message -> %s", kind.c_str(), m.size(), want ? "accept" : why);
}

// ------------------------------------------------------------------------------------------ C18 SPHINCS+
static Bytes spk(const Key& k) { return slice(k.pk, PK_SPX, 64); }
static Bytes ssk(const Key& k) { return slice(k.sk, SK_SPX, 128); }
static void c18_keygen(Gen& g) {
  Bytes seed = g.bytes(96), epk(64), esk(128); spx::keypair(seed.data(), epk.data(), esk.data()); bool viarng = g.u(3) == 2, left = g.u(2);
  GBuf pk(64, 0xA5, left), sk(128, 0xA5, left), sd(seed, true, left); int rc;
  if (viarng) { rng_queue(seed); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair(pk, sk); } else rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair(pk, sk, sd);
  pk.check("public key"); sk.check("secret key"); CHECK(rc == 0 && pk.is(epk) && sk.is(esk), "SPHINCS+ key pair differs from the specification for seed %s (rc %d)", hex(seed, 96).c_str(), rc);
  g.label(viarng ? "random" : "seeded"); g.nontrivial(hash64(seed)); g.desc("sphincs keygen seed %s", hex(seed, 16).c_str());
}
static void c18_sign(Gen& g) {
  Key k = g.u(4) ? pool_key(g.u(8)) : Key(); Bytes pk(64), sk(128); if (k.pk.empty()) { Bytes seed = g.bytes(96); spx::keypair(seed.data(), pk.data(), sk.data()); } else { pk = spk(k); sk = ssk(k); }
  Bytes m = g.u(3) ? g.bytes(g.sweep(300)) : any_msg(g, 400), opt = g.bytes(32), e(SPXS);
  // half of the time pick, among many randomisers, one that leads to extreme indices
  if (g.u(2)) { Bytes best = opt; int bs = -1; Prng r(g.u64()); for (int i = 0; i < 300; i++) { Bytes o(32); r.fill(o.data(), 32); uint8_t R[32]; uint32_t f[35], lf; uint64_t tr; spx::message_random(sk.data(), o.data(), m.data(), m.size(), R); spx::indices(R, pk.data(), m.data(), m.size(), f, &tr, &lf); int s = (lf == 0 || lf == 15) * 2; for (int j = 0; j < 35; j++) s += f[j] == 0 || f[j] == 511; if ((tr >> 56) == 0 || (tr >> 56) == 255) s += 2; if (s > bs) { bs = s; best = o; } } opt = best; g.label("extreme indices"); }
  spx::sign(sk.data(), opt.data(), m.data(), m.size(), e.data()); size_t n = m.size(); rng_queue(opt); int rc; S fm;
  if (g.u(2)) { GBuf s(SPXS), sl(8), mm(m), kk(sk); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(s, (size_t*)sl.p, mm, n, kk); s.check("signature"); size_t d = 0; while (d < SPXS && s.p[d] == e[d]) d++; CHECK(rc == 0 && *(size_t*)sl.p == SPXS && d == SPXS, "SPHINCS+ signature differs from the specification at byte %zu (%zu-byte message, rc %d)", d, n, rc); fm = "detached"; }
  else { GBuf s(SPXS + n), sl(8), mm(m), kk(sk); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(s, (size_t*)sl.p, mm, n, kk); s.check("signed message"); CHECK(rc == 0 && *(size_t*)sl.p == SPXS + n && s.is(cat(e, m)), "SPHINCS+ signed message differs from the specification (%zu-byte message, rc %d)", n, rc); fm = "attached"; }
  bool inplace = g.u(2); Bytes sm = cat(e, m); GBuf s(sm, !inplace), p(pk), out(n), ml(8); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(inplace ? s.p : out.p, (size_t*)ml.p, s, sm.size(), p);
  CHECK(rc == 0 && *(size_t*)ml.p == n && (n == 0 || !memcmp(inplace ? s.p : out.p, m.data(), n)), "SPHINCS+ open of a conformant signature failed (%zu-byte message%s, rc %d)", n, inplace ? ", in place" : "", rc);
  g.label(fm); g.nontrivial(hash64(m, hash64(sk, hash64(opt)))); g.desc("sphincs %s: %zu-byte message, randomiser %s", fm.c_str(), n, hex(opt, 8).c_str());
}
// ------------------------------------------------------------------------------------------ C19
struct SPool { Bytes pk, sk, m, sig; };
static const SPool& spool(unsigned i) {
  static std::map<unsigned, SPool> c; auto it = c.find(i); if (it != c.end()) return it->second; SPool p; Key k = i % 2 ? key_zero_root() : pool_key(0); p.pk = spk(k); p.sk = ssk(k); Prng r(mix64(i * 77 + 5 + g_seed)); static const size_t ls[] = {33, 0, 1, 64, 200, 40}; p.m.resize(ls[i % 6]); r.fill(p.m.data(), p.m.size()); Bytes o(32); r.fill(o.data(), 32); p.sig.resize(SPXS); spx::sign(p.sk.data(), o.data(), p.m.data(), p.m.size(), p.sig.data()); return c.emplace(i, p).first->second;
}
static int spx_ver(const Bytes& sig, size_t siglen, const Bytes& m, const Bytes& pk, bool left = false) { GBuf s(sig, true, left), mm(m, true, left), p(pk, true, left); return PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(s, siglen, mm, m.size(), p); }
static void c19_flip(Gen& g) {         // every 32-byte node of the signature in turn (thorough: every byte)
  const SPool& p = spool(0); size_t at = g_thorough ? g.sweep(SPXS) : g.sweep(SPXS / 32) * 32 + g.u(32); uint8_t mask = g.u(2) ? 1u << g.u(8) : 1 + g.u(255); Bytes s = p.sig; s[at] ^= mask;
  CHECK(spx_ver(s, SPXS, p.m, p.pk) != 0, "SPHINCS+ verify accepts a signature changed at byte %zu (mask %02x)", at, mask);
  g.label(at < 32 ? "randomiser" : at < 32 + 35 * 320 ? "few-time" : "hypertree"); g.nontrivial(at * 256 + mask); g.desc("byte %zu ^= %02x", at, mask);
}
static void c19(Gen& g) {
  const SPool& p0 = spool(g.u(2)); SPool p = p0; S kind, h; size_t siglen = SPXS; int must = -1; unsigned w = g.sweep(10);
  switch (w) {
    case 0: kind = "honest"; must = 1; break;
    case 1: p.pk[g.sweep(64)] ^= g.u(2) ? 1u << g.u(8) : 1 + g.u(255); kind = "public key"; must = 0; break;
    case 2: { if (p.m.empty()) p.m.push_back(g.u(256)); else if (g.u(2)) p.m[g.u(p.m.size())] ^= 1u << g.u(8); else if (g.u(2)) p.m.pop_back(); else p.m.push_back(g.u(2)); kind = "message"; must = 0; break; }
    case 3: { size_t d = 1 + g.u(g.u(2) ? 3 : SPXS); if (g.u(2)) p.sig.resize(d > SPXS ? 0 : SPXS - d); else p.sig.resize(SPXS + d, (uint8_t)g.u(2)); siglen = p.sig.size(); kind = "length"; must = 0; break; }
    case 4: { size_t a = g.u(SPXS / 32), b = g.u(SPXS / 32); std::swap_ranges(p.sig.begin() + a * 32, p.sig.begin() + a * 32 + 32, p.sig.begin() + b * 32); kind = "nodes swapped"; if (a != b) must = 0; break; }
    case 5: { const SPool& q = spool(g.u(2) ? 2 : 3); size_t a = g.u(SPXS / 32), n = 1 + g.u(80); n = std::min(n, SPXS / 32 - a); std::copy(q.sig.begin() + a * 32, q.sig.begin() + (a + n) * 32, p.sig.begin() + a * 32); kind = "spliced"; must = 0; break; }
    case 6: { // root differs in one byte only
      const SPool& q = spool(g.u(2)); p = q; unsigned at = g.sweep(32); if (&q == &spool(1) && at == 0) at = 1 + g.u(31); p.pk[32 + at] ^= 1u << g.u(8); kind = "root byte"; must = 0; break; }
    case 7: p.sig = g.bytes(SPXS); kind = "random"; break;
    case 8: { p.sig = damage(g, p.sig, &h); kind = "damaged-" + h; must = 0; break; }
    default: { std::fill(p.sig.begin() + 32, p.sig.end(), (uint8_t)(g.u(2) ? 0xff : 0)); kind = "constant"; must = 0; }
  }
  { Bytes a = p.sig, b = p.pk, d = p.m; g.splice(p.sig); g.splice(p.pk); g.splice(p.m); if (a != p.sig || b != p.pk || d != p.m) { must = -1; kind += " spliced"; } }
  bool want = must >= 0 ? must : siglen == SPXS && spx::verify(p.pk.data(), p.m.data(), p.m.size(), p.sig.data(), siglen);
  int rc = spx_ver(p.sig, siglen, p.m, p.pk, g.u(3) == 2); CHECK((rc == 0) == want, "SPHINCS+ verify returned %d for %s signature (%s)", rc, want ? "a valid" : "an invalid", kind.c_str());
  if (siglen >= SPXS && g.u(2) && w != 3) { Bytes sm = cat(p.sig, p.m); GBuf s(sm), k(p.pk), out(p.m.size()), ml(8); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(out, (size_t*)ml.p, s, sm.size(), k); CHECK((rc == 0) == want, "SPHINCS+ open returned %d for %s signature (%s)", rc, want ? "a valid" : "an invalid", kind.c_str()); }
  g.label(kind + (want ? " accepted" : " rejected")); g.nontrivial(hash64(p.sig, hash64(p.m, hash64(p.pk)))); g.desc("sphincs verify: %s, %zu-byte message -> %d", kind.c_str(), p.m.size(), rc);
}
// reference signatures over many messages and randomisers: every tree, leaf and few-time index is reached
static void c19_valid(Gen& g) {
  Key k = pool_key(g.u(4)); Bytes pk = spk(k), sk = ssk(k), m = g.u(4) ? g.bytes(g.sweep(240)) : any_msg(g, 300), opt = g.bytes(32), sig(SPXS); uint8_t R[32]; uint32_t f[35], lf; uint64_t tr; unsigned want = g.sweep(8);
  Prng r(g.u64()); for (int i = 0; i < 200; i++) { spx::message_random(sk.data(), opt.data(), m.data(), m.size(), R); spx::indices(R, pk.data(), m.data(), m.size(), f, &tr, &lf); bool ok = want == 0 ? (tr >> 63) : want == 1 ? (tr >> 56) == 255 : want == 2 ? (tr >> 56) == 0 : want == 3 ? lf == 15 : want == 4 ? lf == 0 : want == 5 ? (tr >> 63) && lf == 15 : want == 6 ? (tr & 255) == 255 : true; if (ok) break; r.fill(opt.data(), 32); }
  spx::sign(sk.data(), opt.data(), m.data(), m.size(), sig.data()); int rc = spx_ver(sig, SPXS, m, pk, g.u(2)); CHECK(rc == 0, "SPHINCS+ verify returned %d for a valid signature (%zu-byte message, tree %016llx, leaf %u)", rc, m.size(), (ull)tr, lf);
  size_t at = g.u(SPXS); uint8_t mk = 1u << g.u(8); sig[at] ^= mk; CHECK(spx_ver(sig, SPXS, m, pk) != 0, "SPHINCS+ verify accepts a signature changed at byte %zu (mask %02x; tree %016llx, leaf %u)", at, mk, (ull)tr, lf);
  g.label(strf("tree top byte %s, leaf %s", (tr >> 56) == 255 ? "ff" : (tr >> 56) == 0 ? "00" : tr >> 63 ? "high" : "low", lf == 0 ? "first" : lf == 15 ? "last" : "inner")); g.nontrivial(hash64(sig, hash64(m))); g.desc("reference signature: tree %016llx leaf %u, %zu-byte message, byte %zu flipped", (ull)tr, lf, m.size(), at);
}
// signatures made under a public key whose root field is wrong: only the final comparison can reject them
static void c19_root(Gen& g) {
  unsigned i = g.sweep(4); const SPool& p = spool(i); Prng r(mix64(g_seed * 5 + i)); static std::map<unsigned, SPool> c; auto it = c.find(i);
  if (it == c.end()) { SPool q = p; unsigned at = i % 2 ? 1 + r.next() % 31 : (i == 0 ? 31 : r.next() % 32); uint8_t mk = 1u << (r.next() % 8); q.sk[96 + at] ^= mk; q.pk[32 + at] ^= mk; Bytes o(32); r.fill(o.data(), 32); spx::sign(q.sk.data(), o.data(), q.m.data(), q.m.size(), q.sig.data()); it = c.emplace(i, q).first; }
  const SPool& q = it->second; CHECK(spx_ver(q.sig, SPXS, q.m, q.pk) != 0, "SPHINCS+ verify accepts a signature whose recomputed root differs from the public key's");
  g.nontrivial(i); g.desc("root mismatch %u", i);
}

// ------------------------------------------------------------------------------------------ C20 Ed25519
static void c20_sign(Gen& g) {
  Bytes seed = g.bytes(32), m = g.bytes(g.u(2) ? g.len(0, 300, {47, 48, 63, 64, 79, 80, 95, 96, 111, 112, 127, 128, 175, 176, 191, 192, 239, 240}) : g.sweep(280)), epk(32), esk(64), es(64); ed_keypair(seed.data(), epk.data(), esk.data()); ed_sign(esk.data(), m.data(), m.size(), es.data());
  bool viarng = g.u(4) == 3, left = g.u(2); GBuf pk(32, 0xA5, left), sk(64, 0xA5, left), sd(seed, true, left); int rc; if (viarng) { rng_queue(seed); rc = crypto_sign_ed25519_tweet_keypair(pk, sk); } else rc = crypto_sign_ed25519_keypair_seed(pk, sk, sd);
  pk.check("public key"); sk.check("secret key"); CHECK(rc == 0 && pk.is(epk) && sk.is(esk), "Ed25519 key pair differs from RFC 8032 for seed %s (rc %d)", hex(seed, 32).c_str(), rc);
  GBuf sm(64 + m.size(), 0xA5, left), sl(8), mm(m, true, left), k2(esk); rc = crypto_sign_ed25519_tweet(sm, (ull*)sl.p, mm, m.size(), k2); sm.check("signed message");
  CHECK(rc == 0 && *(ull*)sl.p == 64 + m.size() && sm.is(cat(es, m)), "Ed25519 signature of a %zu-byte message differs from RFC 8032 (seed %s)", m.size(), hex(seed, 32).c_str());
  GBuf out(64 + m.size()), ml(8), in(cat(es, m)), p(epk); rc = crypto_sign_ed25519_tweet_open(out, (ull*)ml.p, in, 64 + m.size(), p); CHECK(rc == 0 && *(ull*)ml.p == m.size() && (m.empty() || !memcmp(out.p, m.data(), m.size())), "Ed25519 open of an RFC 8032 signature failed (%zu-byte message, rc %d)", m.size(), rc);
  g.label(strf("len/32=%zu", m.size() / 32)); g.nontrivial(hash64(m, hash64(seed))); g.desc("ed25519 seed %s, %zu-byte message", hex(seed, 12).c_str(), m.size());
}
static Bytes small_order(unsigned i) {   // canonical encodings of the 8 small-order points (sign bit of x as listed)
  static const char* h[] = {"0100000000000000000000000000000000000000000000000000000000000000", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "0000000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000080",
    "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa"};
  Bytes r; for (int k = 0; k < 32; k++) { unsigned v; sscanf(h[i % 8] + 2 * k, "%2x", &v); r.push_back(v); } return r;
}
static Bytes odd_scalar(Gen& g) {
  Bytes s(32); unsigned w = g.u(8); if (w == 0) return s; if (w == 7) { s = g.bytes(32); return s; }
  memcpy(s.data(), ED_L, 32); if (w == 1) return s;                                   // L
  auto addi = [&](int d) { int c = d; for (int i = 0; i < 32 && c; i++) { int v = s[i] + c; s[i] = v & 255; c = v >> 8; } };
  if (w == 2) { addi(-1 - (int)g.u(4)); return s; } if (w == 3) { addi(1 + g.u(4)); return s; }
  if (w == 4) { int t = g.u(14); for (int i = 0; i < t; i++) sc_add_L(s.data(), 1); addi((int)g.u(5) - 2); return s; }
  if (w == 5) { s.assign(32, 0); s[0] = g.u(256); return s; }
  s[31 - g.u(32)] ^= 1u << g.u(8); return s;                                           // L with one bit changed
}
static void c20_verify(Gen& g) {
  Key k = pool_key(g.u(8)); Bytes pk = slice(k.pk, 0, 32), m = g.bytes(g.len(0, 200, {64, 128})), sig(64); S kind, h; unsigned w = g.sweep(12);
  ed_sign(k.sk.data(), m.data(), m.size(), sig.data());
  switch (w) {
    case 0: kind = "honest"; break;
    case 1: { int t = 1 + g.u(15), done = 0; for (; t > 0; t--) if (!sc_add_L(sig.data() + 32, 1)) break; else done++; kind = "S+kL"; break; }
    case 2: sig = craft_ed_flipR(k, m, g.rnd(32), g.u(32), 1u << g.u(8)); kind = "commitment bit"; break;
    case 3: if (g.u(4) == 0) { sig = craft_ed_zeroR(k, m, g.u64(), 1 + g.u(31), 1u << g.u(8)); kind = "commitment after zero"; } else { sig = craft_ed_flipR(k, m, g.rnd(32), 31, 0x80); kind = "commitment sign"; } break;
    case 4: case 5: { // small-order public key, chosen scalar, matching commitment for one choice of the torsion component
      pk = small_order(g.u(8)); Bytes s = odd_scalar(g); uint8_t red[32], w64[64] = {0}; memcpy(w64, s.data(), 32); sc_reduce64(w64, red); uint8_t R[32]; ed_scalarbase(red, R); memcpy(sig.data(), R, 32); if (g.u(3) == 0) memcpy(sig.data(), small_order(g.u(8)).data(), 32); memcpy(sig.data() + 32, s.data(), 32); kind = "small-order key"; break; }
    case 6: { pk = g.bytes(32); kind = "arbitrary key"; if (g.u(2)) { Bytes s = odd_scalar(g); memcpy(sig.data() + 32, s.data(), 32); } break; }
    case 7: { Bytes s = odd_scalar(g); memcpy(sig.data() + 32, s.data(), 32); kind = "odd scalar"; break; }
    case 8: sig = damage(g, sig, &h); kind = "damaged-" + h; break;
    case 9: m = damage(g, m.empty() ? Bytes(1, 9) : m, &h); kind = "other message"; break;
    case 10: { pk[31] ^= 0x80; kind = "negated key"; break; }
    default: { // another signer: chosen nonce scalar
      Bytes r = g.bytes(32); uint8_t w64[64] = {0}, rr[32]; memcpy(w64, r.data(), 32); sc_reduce64(w64, rr); ed_sign_with_r(k.sk.data(), m.data(), m.size(), rr, sig.data()); kind = "other signer"; }
  }
  g.splice(sig); g.splice(pk);
  EdCanon cls = ed_classify_point(pk.data()); if (cls == ED_NONCANON_Y || cls == ED_NEG_ZERO) g.discard();   // outside the property: encodings RFC 8032 and TweetNaCl treat differently
  bool want = ed_verify(pk.data(), m.data(), m.size(), sig.data(), true); size_t n = 64 + m.size();
  GBuf s(cat(sig, m)), p(pk), out(n), ml(8); int rc = crypto_sign_ed25519_tweet_open(out, (ull*)ml.p, s, n, p); out.check("message");
  CHECK((rc == 0) == want, "Ed25519 open returned %d for a signature RFC 8032 %s (%s; key %s, signature %s)", rc, want ? "accepts" : "rejects", kind.c_str(), hex(pk, 32).c_str(), hex(sig, 64).c_str()); if (want) CHECK(*(ull*)ml.p == m.size() && (m.empty() || !memcmp(out.p, m.data(), m.size())), "Ed25519 open returned another message");
  g.label(kind + (want ? " accepted" : " rejected")); g.nontrivial(hash64(sig, hash64(m, hash64(pk)))); g.desc("ed25519 verify %s, %zu-byte message -> %d", kind.c_str(), m.size(), rc);
}

// ------------------------------------------------------------------------------------------ C21 hashes
struct Alg { const char* name; unsigned rate; uint8_t suf; size_t out; };
static const Alg ALG[5] = {{"shake128", 168, 0x1f, 0}, {"shake256", 136, 0x1f, 0}, {"sha3-256", 136, 6, 32}, {"sha3-384", 104, 6, 48}, {"sha3-512", 72, 6, 64}};
static size_t hlen(Gen& g, unsigned rate, size_t hi = 600) { return g.len(0, hi, {8, rate, 2 * rate, 3 * rate, rate - 8, rate + 8, 4 * rate}); }
static void c21_oneshot(Gen& g) {
  unsigned a = g.sweep(5); const Alg& A = ALG[a]; size_t n = g.u(2) ? g.sweep(600) : hlen(g, A.rate, g.u(20) == 0 ? 70000 : 2000); Bytes in = g.bytes(n); size_t o = A.out ? A.out : hlen(g, A.rate, g.u(30) == 0 ? 5000 : 700); Bytes e(o); sponge(A.rate, A.suf, in.data(), n, e.data(), o);
  bool left = g.u(2); GBuf i(in, true, left), out(o, 0xA5, left);
  switch (a) { case 0: ::shake128(out, o, i, n); break; case 1: ::shake256(out, o, i, n); break; case 2: ::sha3_256(out, i, n); break; case 3: ::sha3_384(out, i, n); break; default: ::sha3_512(out, i, n); }
  out.check("hash output"); CHECK(out.is(e), "%s of a %zu-byte input (%zu output bytes) differs from FIPS 202", A.name, n, o);
  g.label(A.name); g.nontrivial(hash64(in, a * 100003 + o)); g.desc("%s %zu -> %zu bytes", A.name, n, o);
}
static void c21_blocks(Gen& g) {      // absorb once, squeeze whole blocks, clones
  unsigned a = g.sweep(2); const Alg& A = ALG[a]; size_t n = hlen(g, A.rate, 900); Bytes in = g.bytes(n); GBuf i(in); kctx c[2]; bool live[2] = {true, false}; size_t pos[2] = {0, 0}; Bytes e(A.rate * 40); sponge(A.rate, A.suf, in.data(), n, e.data(), e.size());
  if (a == 0) shake128_absorb(&c[0], i, n); else shake256_absorb(&c[0], i, n);
  S tr; unsigned steps = 1 + g.u(6);
  for (unsigned s = 0; s < steps; s++) {
    unsigned w = g.u(live[1] ? 2 : 1); if (!live[1] && g.u(4) == 3) { (a == 0 ? shake128_ctx_clone : shake256_ctx_clone)(&c[1], &c[0]); live[1] = true; pos[1] = pos[0]; tr += "c"; continue; }
    size_t nb = g.u(5); GBuf o(nb * A.rate); (a == 0 ? shake128_squeezeblocks : shake256_squeezeblocks)(o, nb, &c[w]); o.check("squeeze output"); CHECK(nb == 0 || !memcmp(o.p, e.data() + pos[w], nb * A.rate), "%s block squeeze at offset %zu differs from FIPS 202 (%zu-byte input, context %u)", A.name, pos[w], n, w); pos[w] += nb * A.rate; tr += strf("%u:%zu ", w, nb);
  }
  for (int w = 0; w < 2; w++) if (live[w]) (a == 0 ? shake128_ctx_release : shake256_ctx_release)(&c[w]);
  CHECK(heap_env.live == 0, "%ld hash contexts still allocated after releasing all", heap_env.live);
  g.label(A.name); g.nontrivial(hash64(in, hash64(tr))); g.desc("%s absorb %zu then %s", A.name, n, tr.c_str());
}
static void c21_inc(Gen& g) {          // state machine over up to 4 incremental contexts
  unsigned a = g.sweep(5); const Alg& A = ALG[a]; struct M { bool live = false, fin = false; Bytes in; size_t pos = 0; } m[4]; kctx c[4]; S tr; unsigned steps = 2 + g.u(24);
  auto init = [&](int i) { switch (a) { case 0: shake128_inc_init(&c[i]); break; case 1: shake256_inc_init(&c[i]); break; case 2: sha3_256_inc_init(&c[i]); break; case 3: sha3_384_inc_init(&c[i]); break; default: sha3_512_inc_init(&c[i]); } m[i] = M(); m[i].live = true; };
  auto release = [&](int i) { switch (a) { case 0: shake128_inc_ctx_release(&c[i]); break; case 1: shake256_inc_ctx_release(&c[i]); break; case 2: sha3_256_inc_ctx_release(&c[i]); break; case 3: sha3_384_inc_ctx_release(&c[i]); break; default: sha3_512_inc_ctx_release(&c[i]); } m[i].live = false; };
  auto expect = [&](const M& x, size_t n) { Bytes e(x.pos + n); sponge(A.rate, A.suf, x.in.data(), x.in.size(), e.data(), e.size()); return Bytes(e.begin() + x.pos, e.end()); };
  init(0); unsigned squeezes = 0; 
  for (unsigned s = 0; s < steps; s++) {
    int i = g.u(4); if (!m[i].live) { int j = g.u(4); if (m[j].live && j != i) { switch (a) { case 0: shake128_inc_ctx_clone(&c[i], &c[j]); break; case 1: shake256_inc_ctx_clone(&c[i], &c[j]); break; case 2: sha3_256_inc_ctx_clone(&c[i], &c[j]); break; case 3: sha3_384_inc_ctx_clone(&c[i], &c[j]); break; default: sha3_512_inc_ctx_clone(&c[i], &c[j]); } m[i] = m[j]; tr += strf("clone%d>%d ", j, i); } else { init(i); tr += strf("init%d ", i); } continue; }
    unsigned w = g.u(8);
    if (!m[i].fin && w < 6) { size_t n = m[i].in.size() && g.u(4) == 0 ? (A.rate - m[i].in.size() % A.rate) % A.rate + g.u(3) : hlen(g, A.rate, 420); Bytes d = g.bytes(n); GBuf in(d); switch (a) { case 0: shake128_inc_absorb(&c[i], in, n); break; case 1: shake256_inc_absorb(&c[i], in, n); break; case 2: sha3_256_inc_absorb(&c[i], in, n); break; case 3: sha3_384_inc_absorb(&c[i], in, n); break; default: sha3_512_inc_absorb(&c[i], in, n); } m[i].in.insert(m[i].in.end(), d.begin(), d.end()); tr += strf("abs%d:%zu ", i, n); }
    else if (!m[i].fin && w == 6) { if (a < 2) { (a == 0 ? shake128_inc_finalize : shake256_inc_finalize)(&c[i]); m[i].fin = true; tr += strf("fin%d ", i); } else { GBuf o(A.out); switch (a) { case 2: sha3_256_inc_finalize(o, &c[i]); break; case 3: sha3_384_inc_finalize(o, &c[i]); break; default: sha3_512_inc_finalize(o, &c[i]); } o.check("hash output"); CHECK(o.is(expect(m[i], A.out)), "incremental %s of %zu bytes differs from FIPS 202 after: %s", A.name, m[i].in.size(), tr.c_str()); m[i].live = false; squeezes++; tr += strf("fin%d ", i); } }
    else if (m[i].fin && w < 7) { size_t n = hlen(g, A.rate, 420); GBuf o(n); (a == 0 ? shake128_inc_squeeze : shake256_inc_squeeze)(o, n, &c[i]); o.check("squeeze output"); CHECK(o.is(expect(m[i], n)), "incremental %s: squeezing %zu bytes at offset %zu differs from FIPS 202 after: %s", A.name, n, m[i].pos, tr.c_str()); m[i].pos += n; squeezes++; tr += strf("sq%d:%zu ", i, n); }
    else { release(i); tr += strf("rel%d ", i); }
  }
  for (int i = 0; i < 4; i++) if (m[i].live) {   // every surviving context still gives the right continuation
    if (a >= 2) { GBuf o(A.out); switch (a) { case 2: sha3_256_inc_finalize(o, &c[i]); break; case 3: sha3_384_inc_finalize(o, &c[i]); break; default: sha3_512_inc_finalize(o, &c[i]); } CHECK(o.is(expect(m[i], A.out)), "incremental %s of %zu bytes differs from FIPS 202 after: %s", A.name, m[i].in.size(), tr.c_str()); squeezes++; }
    else { if (!m[i].fin) (a == 0 ? shake128_inc_finalize : shake256_inc_finalize)(&c[i]); GBuf o(40); (a == 0 ? shake128_inc_squeeze : shake256_inc_squeeze)(o, 40, &c[i]); CHECK(o.is(expect(m[i], 40)), "incremental %s: final squeeze of context %d differs from FIPS 202 after: %s", A.name, i, tr.c_str()); squeezes++; release(i); }
  }
  CHECK(heap_env.live == 0, "%ld hash contexts still allocated after releasing all", heap_env.live);
  g.label(A.name); if (squeezes) g.nontrivial(hash64(tr, a)); g.desc("%s: %s", A.name, tr.c_str());
}

// ------------------------------------------------------------------------------------------ C22 seed expander
static void c22_stream(Gen& g) {
  Bytes seed = g.bytes(g.len(0, 300, {32, 64, 96, 134, 135, 136})), dom = seed; dom.push_back(2); unsigned k = 1 + g.u(10); S tr; kctx c; GBuf sd(seed); seedexpander_init(&c, sd, seed.size()); size_t pos = 0; std::vector<size_t> ls; size_t tot = 0;
  for (unsigned i = 0; i < k; i++) { size_t n = g.u(3) ? g.u(40) : g.len(0, 500, {8, 128, 136, 272}); ls.push_back(n); tot += (n + 7) / 8 * 8; }
  Bytes e(tot); ref::shake256(dom.data(), dom.size(), e.data(), tot);
  for (size_t n : ls) { GBuf o(n, 0xA5, g.u(2)); seedexpander(&c, o, n); o.check("expander output"); CHECK(n == 0 || !memcmp(o.p, e.data() + pos, n), "seed expander request of %zu bytes at stream offset %zu differs (seed of %zu bytes, requests %s)", n, pos, seed.size(), tr.c_str()); pos += (n + 7) / 8 * 8; tr += strf("%zu ", n); }
  seedexpander_release(&c); CHECK(heap_env.live == 0, "seed expander leaves memory allocated"); g.label(strf("requests=%u", k)); g.nontrivial(hash64(seed, hash64(tr))); g.desc("seed of %zu bytes, requests %s", seed.size(), tr.c_str());
}
static void c22_wrapper(Gen& g) {
  size_t sl = g.u(4) == 0 ? g.u(40) : g.len(32, 300, {32, 33, 64, 96, 135, 136}), ol = g.u(3) == 0 ? sl + g.u(10) - std::min<size_t>(sl, 4) : g.len(0, 900, {sl, sl + 1, 128, 136, 160, 272}); Bytes seed = g.bytes(sl), dom = seed; dom.push_back(2); GBuf s(seed), o(ol); int rc = seedexpander_wrapper(s, sl, o, ol); o.check("expander output"); int want = sl < 32 ? -2 : ol <= sl ? -3 : 0;
  CHECK((rc == 0) == (want == 0), "seed expander returned %d for seed length %zu, output length %zu", rc, sl, ol); if (want) CHECK(o.all(0xA5), "seed expander wrote output although it refused"); else { Bytes e = shake256v(dom, ol); CHECK(o.is(e), "one-call seed expander output differs from the SHAKE-256 stream (%zu -> %zu bytes)", sl, ol); g.nontrivial(hash64(seed, ol)); }
  g.label(want == 0 ? "ok" : want == -2 ? "short seed" : "short output"); g.desc("wrapper %zu -> %zu: %d", sl, ol, rc);
}

// ------------------------------------------------------------------------------------------ C24 NaCl
static Bytes k32(Gen& g) { return g.bytes(32); }
static void c24_hash(Gen& g) {
  size_t n = g.u(2) ? g.sweep(520) : g.len(0, g.u(30) == 0 ? 20000 : 1500, {111, 112, 127, 128, 239, 240, 255, 256}); Bytes in = g.bytes(n), e(64); sha512(in.data(), n, e.data()); GBuf i(in, true, g.u(2)), o(64); crypto_hash_sha512_tweet(o, i, n); o.check("hash"); CHECK(o.is(e), "SHA-512 of %zu bytes differs", n);
  if (g.u(4) == 0) { Bytes st = g.bytes(64), est = st; sha512_blocks(est.data(), in.data(), n); GBuf h(st, false); int r = crypto_hashblocks_sha512_tweet(h, i, n); CHECK(h.is(est) && (size_t)r == n % 128, "SHA-512 block function on %zu bytes differs (returned %d)", n, r); g.label("hashblocks"); }
  g.nontrivial(hash64(in)); g.label("hash"); g.desc("sha512 %zu bytes", n);
}
static void c24_stream(Gen& g) {
  Bytes key = k32(g), n24 = g.bytes(24); size_t n = g.u(60) == 0 ? 16300 + g.u(400) : g.len(0, 700, {63, 64, 65, 128, 192, 256}); Bytes m = g.bytes(n), e(n), ex(n); bool x = g.u(2), xr = g.u(2); if (x) xsalsa20_stream(e.data(), n, n24.data(), key.data()); else salsa20_stream(e.data(), n, n24.data(), key.data()); if (xr) for (size_t i = 0; i < n; i++) e[i] ^= m[i];
  GBuf o(n), kk(key), nn(Bytes(n24.begin(), n24.begin() + (x ? 24 : 8))), mm(m); if (x) { if (xr) crypto_stream_xsalsa20_tweet_xor(o, mm, n, nn, kk); else crypto_stream_xsalsa20_tweet(o, n, nn, kk); } else { if (xr) crypto_stream_salsa20_tweet_xor(o, mm, n, nn, kk); else crypto_stream_salsa20_tweet(o, n, nn, kk); }
  o.check("stream"); CHECK(o.is(e), "%ssalsa20%s of %zu bytes differs", x ? "x" : "", xr ? "_xor" : "", n); 
  if (g.u(3) == 0) { Bytes in = g.bytes(16), cc = g.bytes(16), e1(64), e2(32); core_salsa20(e1.data(), in.data(), key.data(), cc.data()); core_hsalsa20(e2.data(), in.data(), key.data(), cc.data()); GBuf a(64), b(32), i(in), c(cc); crypto_core_salsa20_tweet(a, i, kk, c); crypto_core_hsalsa20_tweet(b, i, kk, c); CHECK(a.is(e1) && b.is(e2), "salsa20 core output differs"); g.label("core"); }
  g.label(x ? "xsalsa20" : "salsa20"); g.nontrivial(hash64(m, hash64(key, hash64(n24, x * 2 + xr)))); g.desc("%ssalsa20%s %zu bytes", x ? "x" : "", xr ? " xor" : "", n);
}
static void c24_poly(Gen& g) {
  Bytes key = k32(g), m = g.bytes(g.len(0, 300, {15, 16, 17, 32, 48, 64})), e(16); if (g.u(3) == 0) { // near-modulus accumulators
    key.assign(32, 0); key[0] = 1 + g.u(3); for (int i = 16; i < 32; i++) key[i] = g.u(2) ? 0xff : 0; size_t nb = 1 + g.u(5); m.assign(nb * 16, 0xff); for (size_t i = 0; i < nb; i++) if (g.u(2)) m[i * 16] = 0xf9 + g.u(7); g.label("carry"); }
  poly1305(e.data(), m.data(), m.size(), key.data()); GBuf o(16), mm(m), kk(key); crypto_onetimeauth_poly1305_tweet(o, mm, m.size(), kk); o.check("tag"); CHECK(o.is(e), "Poly1305 of %zu bytes differs (key %s, message %s)", m.size(), hex(key, 32).c_str(), hex(m, 64).c_str());
  { GBuf t(e); CHECK(crypto_onetimeauth_poly1305_tweet_verify(t, mm, m.size(), kk) == 0, "Poly1305 verify rejects the right tag"); }
  Bytes bad = e; bad[g.sweep(16)] ^= g.u(2) ? 1u << g.u(8) : 1 + g.u(255); GBuf tb(bad); CHECK(crypto_onetimeauth_poly1305_tweet_verify(tb, mm, m.size(), kk) != 0, "Poly1305 verify accepts a wrong tag (%s instead of %s)", hex(bad, 16).c_str(), hex(e, 16).c_str());
  g.nontrivial(hash64(m, hash64(key))); g.label("poly1305"); g.desc("poly1305 %zu bytes", m.size());
}
static Bytes x_point(Gen& g) {
  Bytes p(32); unsigned w = g.u(8);
  switch (w) { case 0: p[0] = g.u(20); return p; case 1: { p.assign(32, 0xff); p[31] = 0x7f; p[0] = 0xe8 + g.u(24); if (g.u(2)) p[31] |= 0x80; return p; } case 2: { static const char* h[] = {"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"}; unsigned q = g.u(2); for (int k = 0; k < 32; k++) { unsigned v; sscanf(h[q] + 2 * k, "%2x", &v); p[k] = v; } return p; } case 3: p.assign(32, 0xff); return p; case 4: p = g.bytes(32); p[31] |= 0x80; return p; default: return g.bytes(32); }
}
static void c24_x25519(Gen& g) {
  Bytes n = g.bytes(32), p = x_point(g), e(32); bool base = g.u(3) == 0; if (base) { p.assign(32, 0); p[0] = 9; } x25519(e.data(), n.data(), p.data()); GBuf o(32), nn(n), pp(p); if (base) crypto_scalarmult_curve25519_tweet_base(o, nn); else crypto_scalarmult_curve25519_tweet(o, nn, pp); o.check("shared secret");
  CHECK(o.is(e), "X25519 differs for scalar %s, point %s", hex(n, 32).c_str(), hex(p, 32).c_str()); g.label(base ? "base" : "point"); g.nontrivial(hash64(n, hash64(p))); g.desc("x25519 %s * %s", hex(n, 8).c_str(), hex(p, 8).c_str());
}
static void c24_box(Gen& g) {
  bool pub = g.u(2); size_t d = 32 + g.len(0, 400, {0, 1, 16, 31, 32, 33, 64, 95, 96}); Bytes m = g.bytes(d), n = g.bytes(24), k = k32(g), c(d), sk1 = g.bytes(32), sk2 = g.bytes(32), pk1(32), pk2(32), sh(32), b9(32); memset(m.data(), 0, 32); b9[0] = 9; S kind, h; unsigned form = 0;
  if (pub) { x25519(pk1.data(), sk1.data(), b9.data()); x25519(pk2.data(), sk2.data(), b9.data()); uint8_t z[16] = {0}; x25519(sh.data(), sk1.data(), pk2.data()); core_hsalsa20(k.data(), z, sh.data(), (const uint8_t*)"expand 32-byte k"); }
  secretbox(c.data(), m.data(), d, n.data(), k.data());
  GBuf mm(m), nn(n), kk(k), o(d), P1(pk1), P2(pk2), S1(sk1), S2(sk2); int rc;
  if (!pub) rc = crypto_secretbox_xsalsa20poly1305_tweet(o, mm, d, nn, kk); else if ((form = g.u(3)) == 0) rc = crypto_box_curve25519xsalsa20poly1305_tweet(o, mm, d, nn, P2, S1); else { GBuf bn(32); crypto_box_curve25519xsalsa20poly1305_tweet_beforenm(bn, P2, S1); CHECK(bn.is(k), "box precomputed key differs"); rc = crypto_box_curve25519xsalsa20poly1305_tweet_afternm(o, mm, d, nn, bn); }
  o.check("box"); CHECK(rc == 0 && o.is(c), "%s of a %zu-byte message differs (rc %d)", pub ? "box" : "secretbox", d - 32, rc);
  // opening, altered or not
  Bytes cc = c, n2 = n, k2 = k; Bytes psk = sk2; bool good = true; unsigned w = g.u(6); size_t dd = d;
  if (w == 1) { size_t at = 16 + g.u(d - 16); cc[at] ^= g.u(2) ? 1u << g.u(8) : 1 + g.u(255); good = false; kind = "ciphertext"; } else if (w == 2) { cc[16 + g.sweep(16)] ^= 1u << g.u(8); good = false; kind = "tag"; } else if (w == 3) { n2[g.u(24)] ^= 1u << g.u(8); good = false; kind = "nonce"; } else if (w == 4) { if (pub) psk[1 + g.u(30)] ^= 1u << g.u(8); else k2[g.u(32)] ^= 1u << g.u(8); good = false; kind = "key"; } else if (w == 5) { if (g.u(2) || d == 32) { dd = g.u(32); kind = "short"; } else { dd = d - 1 - g.u(std::min<size_t>(d - 32, 20)); kind = "truncated"; } good = false; } else kind = "honest";
  cc.resize(dd); { Bytes b = cc; g.splice(cc); for (size_t i = 16; i < dd; i++) if (b[i] != cc[i]) good = false; }
  uint8_t fill = 0xA5; GBuf c2(cc), out(dd, fill), nb(n2), kb(k2), SB(psk); unsigned f2 = 0;
  if (!pub) rc = crypto_secretbox_xsalsa20poly1305_tweet_open(out, c2, dd, nb, kb); else if ((f2 = g.u(2)) == 0) rc = crypto_box_curve25519xsalsa20poly1305_tweet_open(out, c2, dd, nb, P1, SB); else { GBuf bn(32); crypto_box_curve25519xsalsa20poly1305_tweet_beforenm(bn, P1, SB); rc = crypto_box_curve25519xsalsa20poly1305_tweet_open_afternm(out, c2, dd, nb, bn); }
  out.check("plaintext"); CHECK((rc == 0) == good, "%s open returned %d for %s input (%s)", pub ? "box" : "secretbox", rc, good ? "an honest" : "an altered", kind.c_str()); if (good) CHECK(out.is(m), "%s open returned another message", pub ? "box" : "secretbox"); else for (size_t i = 0; i < dd; i++) CHECK(out.p[i] == fill || out.p[i] == 0, "%s open failed but wrote plaintext", pub ? "box" : "secretbox");
  if (g.u(8) == 0) { size_t s = g.u(32); Bytes t(s); GBuf a(t), b(s); CHECK(crypto_secretbox_xsalsa20poly1305_tweet(b, a, s, nn, kk) != 0 && b.all(0xA5), "secretbox accepts a %zu-byte padded message", s); }
  g.label(S(pub ? "box " : "secretbox ") + kind); g.nontrivial(hash64(m, hash64(k, hash64(cc, dd)))); g.desc("%s %zu bytes, open %s -> %d", pub ? "box" : "secretbox", d - 32, kind.c_str(), rc);
}
static void c24_misc(Gen& g) {
  if (g.u(3) == 0) { Bytes seed = g.bytes(32), e(32), b(32); b[0] = 9; x25519(e.data(), seed.data(), b.data()); rng_queue(seed); GBuf pk(32), sk(32); int rc = crypto_box_curve25519xsalsa20poly1305_tweet_keypair(pk, sk); CHECK(rc == 0 && sk.is(seed) && pk.is(e), "box key pair differs (rc %d)", rc); g.label("box keypair"); g.nontrivial(hash64(seed)); g.desc("box keypair %s", hex(seed, 8).c_str()); return; }
  bool b32 = g.u(2); size_t n = b32 ? 32 : 16; Bytes x = g.bytes(n), y = x; unsigned w = g.u(3); if (w == 1) y[g.sweep(n)] ^= g.u(2) ? 1u << g.u(8) : 1 + g.u(255); if (w == 2) y = g.bytes(n); bool eq = x == y; GBuf a(x), b(y); int rc = b32 ? crypto_verify_32_tweet(a, b) : crypto_verify_16_tweet(a, b); CHECK((rc == 0) == eq && (rc == 0 || rc == -1), "verify_%zu returned %d for %s strings", n, rc, eq ? "equal" : "different"); g.label(eq ? "equal" : "different"); g.nontrivial(hash64(x, hash64(y))); g.desc("verify_%zu -> %d", n, rc);
}

// ------------------------------------------------------------------------------------------ long inputs: lengths past every 8-, 12- and 16-bit (and for hashes 20-bit) boundary
static size_t long_len(Gen& g, size_t mega) {
  static const size_t b[] = {1024, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65471, 65472, 65535, 65536, 65537, 131072}; unsigned w = g.u(10);
  if (w < 6) return b[g.u(15)]; if (w == 6 && mega > 140000) return mega - 3 + g.u(7); return 800 + g.u(140000);
}
static Bytes long_bytes(Gen& g, size_t n) { Bytes b(n); Prng(g.u64()).fill(b.data(), n); unsigned w = g.u(6); if (w == 0) std::fill(b.begin(), b.end(), 0); if (w == 1) std::fill(b.begin(), b.end(), 0xff); return b; }
static size_t far_pos(Gen& g, size_t n) { unsigned w = g.u(4); return w == 0 ? n - 1 : w == 1 && n > 65536 ? 65536 + g.u(n - 65536) : w == 2 ? n - 1 - g.u(std::min<size_t>(n, 300)) : g.u(n); }
static void long_dil(Gen& g) {
  Key k = pool_key(g.u(8)); Bytes pk = dpk(k), sk = dsk(k), m = long_bytes(g, long_len(g, 1 << 20)), e(DILS); size_t n = m.size(); dil::SignInfo inf; CHECK(dil::sign(sk.data(), m.data(), n, e.data(), dil::SignOpts(), &inf), "harness: reference found no signature");
  GBuf p(pk), kk(sk); int rc; bool att = g.u(2);
  if (att) { bool in = g.u(2); Bytes init(DILS + n, 0xA5); if (in) std::copy(m.begin(), m.end(), init.begin()); GBuf s(init, false), sl(8), mm(m); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign(s, (size_t*)sl.p, in ? s.p : mm.p, n, kk); s.check("signed message"); CHECK(rc == 0 && *(size_t*)sl.p == DILS + n && s.is(cat(e, m)), "Dilithium signed message differs from the specification (%zu-byte message, rc %d)", n, rc); }
  else { GBuf s(DILS), sl(8), mm(m); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(s, (size_t*)sl.p, mm, n, kk); s.check("signature"); CHECK(rc == 0 && *(size_t*)sl.p == DILS && s.is(e), "Dilithium signature of a %zu-byte message differs from the specification (rc %d)", n, rc); }
  { GBuf s(cat(e, m)), out(n), ml(8); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(out, (size_t*)ml.p, s, DILS + n, p); out.check("message"); CHECK(rc == 0 && *(size_t*)ml.p == n && out.is(m), "Dilithium open of a valid signed message failed (%zu-byte message, rc %d)", n, rc); }
  { GBuf s(cat(e, m), false), ml(8); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(s, (size_t*)ml.p, s, DILS + n, p); s.check("message"); CHECK(rc == 0 && *(size_t*)ml.p == n && !memcmp(s.p, m.data(), n), "Dilithium open in place of a valid signed message failed (%zu-byte message, rc %d)", n, rc); }
  size_t at = far_pos(g, n); Bytes m2 = m; unsigned w = g.u(3); if (w == 0) m2.pop_back(); else if (w == 1) m2.push_back(0); else m2[at] ^= 1u << g.u(8);
  { GBuf s(e), mm(m2); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(s, DILS, mm, m2.size(), p); CHECK(rc != 0, "Dilithium verify accepts another message (%zu bytes, %s %zu)", n, w < 2 ? "length" : "byte", w < 2 ? m2.size() : at); }
  g.label(n >= 65536 ? "dilithium >=64k" : "dilithium <64k"); g.nontrivial(hash64(m, hash64(sk))); g.desc("dilithium %s, %zu-byte message, changed at %zu", att ? "attached" : "detached", n, at);
}
static void long_spx(Gen& g) {
  Key k = pool_key(g.u(8)); Bytes pk = spk(k), sk = ssk(k), m = long_bytes(g, long_len(g, 1 << 20)), e(SPXS), opt = g.bytes(32); size_t n = m.size(); spx::sign(sk.data(), opt.data(), m.data(), n, e.data());
  GBuf p(pk), kk(sk); int rc; bool att = g.u(2); rng_queue(opt);
  if (att) { GBuf s(SPXS + n), sl(8), mm(m); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(s, (size_t*)sl.p, mm, n, kk); s.check("signed message"); CHECK(rc == 0 && *(size_t*)sl.p == SPXS + n && s.is(cat(e, m)), "SPHINCS+ signed message differs from the specification (%zu-byte message, rc %d)", n, rc); }
  else { GBuf s(SPXS), sl(8), mm(m); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(s, (size_t*)sl.p, mm, n, kk); s.check("signature"); CHECK(rc == 0 && *(size_t*)sl.p == SPXS && s.is(e), "SPHINCS+ signature of a %zu-byte message differs from the specification (rc %d)", n, rc); }
  { GBuf s(cat(e, m)), out(n), ml(8); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(out, (size_t*)ml.p, s, SPXS + n, p); CHECK(rc == 0 && *(size_t*)ml.p == n && out.is(m), "SPHINCS+ open of a valid signed message failed (%zu-byte message, rc %d)", n, rc); }
  { GBuf s(cat(e, m), false), ml(8); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(s, (size_t*)ml.p, s, SPXS + n, p); s.check("message"); CHECK(rc == 0 && *(size_t*)ml.p == n && !memcmp(s.p, m.data(), n), "SPHINCS+ open in place of a valid signed message failed (%zu-byte message, rc %d)", n, rc); }
  size_t at = far_pos(g, n); Bytes m2 = m; unsigned w = g.u(3); if (w == 0) m2.pop_back(); else if (w == 1) m2.push_back(0); else m2[at] ^= 1u << g.u(8);
  CHECK(spx_ver(e, SPXS, m2, pk) != 0, "SPHINCS+ verify accepts another message (%zu bytes, %s %zu)", n, w < 2 ? "length" : "byte", w < 2 ? m2.size() : at);
  g.label(n >= 65536 ? "sphincs >=64k" : "sphincs <64k"); g.nontrivial(hash64(m, hash64(sk))); g.desc("sphincs %s, %zu-byte message, changed at %zu", att ? "attached" : "detached", n, at);
}
static void long_ed(Gen& g) {
  Key k = pool_key(g.u(8)); Bytes pk = slice(k.pk, 0, 32), sk = slice(k.sk, 0, 64), m = long_bytes(g, long_len(g, 1 << 20)), e(64); size_t n = m.size(); ed_sign(sk.data(), m.data(), n, e.data()); GBuf p(pk), kk(sk); int rc;
  { GBuf s(64 + n), sl(8), mm(m); rc = crypto_sign_ed25519_tweet(s, (ull*)sl.p, mm, n, kk); s.check("signed message"); CHECK(rc == 0 && *(ull*)sl.p == 64 + n && s.is(cat(e, m)), "Ed25519 signature of a %zu-byte message differs from RFC 8032 (rc %d)", n, rc); }
  { GBuf s(cat(e, m)), out(64 + n), ml(8); rc = crypto_sign_ed25519_tweet_open(out, (ull*)ml.p, s, 64 + n, p); CHECK(rc == 0 && *(ull*)ml.p == n && !memcmp(out.p, m.data(), n), "Ed25519 open of a valid signed message failed (%zu-byte message, rc %d)", n, rc); }
  size_t at = far_pos(g, n); Bytes m2 = m; unsigned w = g.u(3); if (w == 0) m2.pop_back(); else if (w == 1) m2.push_back(0); else m2[at] ^= 1u << g.u(8);
  { GBuf s(cat(e, m2)), out(64 + m2.size()), ml(8); rc = crypto_sign_ed25519_tweet_open(out, (ull*)ml.p, s, 64 + m2.size(), p); CHECK(rc != 0, "Ed25519 open accepts another message (%zu bytes, %s %zu)", n, w < 2 ? "length" : "byte", w < 2 ? m2.size() : at); }
  g.label(n >= 65536 ? "ed25519 >=64k" : "ed25519 <64k"); g.nontrivial(hash64(m, hash64(sk))); g.desc("ed25519 %zu-byte message, changed at %zu", n, at);
}
static void long_hash(Gen& g) {
  unsigned a = g.sweep(5); const Alg& A = ALG[a]; Bytes in = long_bytes(g, g.u(3) ? long_len(g, 1 << 20) : g.u(300)); size_t n = in.size(), o = a < 2 ? (g.u(2) ? long_len(g, 1 << 20) : g.u(400)) : A.out; Bytes e(o); sponge(A.rate, A.suf, in.data(), n, e.data(), o); GBuf i(in);
  { GBuf out(o); switch (a) { case 0: ::shake128(out, o, i, n); break; case 1: ::shake256(out, o, i, n); break; case 2: ::sha3_256(out, i, n); break; case 3: ::sha3_384(out, i, n); break; default: ::sha3_512(out, i, n); } out.check("hash output"); CHECK(out.is(e), "%s of %zu bytes (%zu out) differs from FIPS 202", A.name, n, o); }
  // the same input in a few large pieces, the same output in a few large pieces
  kctx c; size_t at = 0; S tr; switch (a) { case 0: shake128_inc_init(&c); break; case 1: shake256_inc_init(&c); break; case 2: sha3_256_inc_init(&c); break; case 3: sha3_384_inc_init(&c); break; default: sha3_512_inc_init(&c); }
  for (int s = 0; at < n; s++) { size_t l = s >= 5 ? n - at : std::min<size_t>(n - at, g.u(4) == 0 ? g.u(300) : 1 + g.u(n)); GBuf d(Bytes(in.begin() + at, in.begin() + at + l)); switch (a) { case 0: shake128_inc_absorb(&c, d, l); break; case 1: shake256_inc_absorb(&c, d, l); break; case 2: sha3_256_inc_absorb(&c, d, l); break; case 3: sha3_384_inc_absorb(&c, d, l); break; default: sha3_512_inc_absorb(&c, d, l); } at += l; tr += strf("%zu ", l); }
  if (a >= 2) { GBuf out(A.out); switch (a) { case 2: sha3_256_inc_finalize(out, &c); break; case 3: sha3_384_inc_finalize(out, &c); break; default: sha3_512_inc_finalize(out, &c); } CHECK(out.is(e), "incremental %s of %zu bytes differs from FIPS 202 (pieces %s)", A.name, n, tr.c_str()); }
  else {
    (a == 0 ? shake128_inc_finalize : shake256_inc_finalize)(&c); at = 0; tr += "/ ";
    for (int s = 0; at < o; s++) { size_t l = s >= 5 ? o - at : std::min<size_t>(o - at, g.u(4) == 0 ? g.u(300) : 1 + g.u(o)); GBuf d(l); (a == 0 ? shake128_inc_squeeze : shake256_inc_squeeze)(d, l, &c); d.check("squeeze output"); CHECK(l == 0 || !memcmp(d.p, e.data() + at, l), "incremental %s: squeezing %zu bytes at offset %zu differs from FIPS 202 (%s)", A.name, l, at, tr.c_str()); at += l; tr += strf("%zu ", l); }
    (a == 0 ? shake128_inc_ctx_release : shake256_inc_ctx_release)(&c);
    if (o >= A.rate) { size_t nb = o / A.rate; kctx b; (a == 0 ? shake128_absorb : shake256_absorb)(&b, i, n); GBuf d(nb * A.rate); (a == 0 ? shake128_squeezeblocks : shake256_squeezeblocks)(d, nb, &b); d.check("squeeze output"); CHECK(!memcmp(d.p, e.data(), nb * A.rate), "%s: squeezing %zu blocks differs from FIPS 202", A.name, nb); (a == 0 ? shake128_ctx_release : shake256_ctx_release)(&b); }
  }
  g.label(S(A.name) + (n >= 65536 || o >= 65536 ? " >=64k" : "")); g.nontrivial(hash64(in, a * 1000003 + o)); g.desc("%s %zu -> %zu bytes, pieces %s", A.name, n, o, tr.c_str());
}
static void long_expander(Gen& g) {
  Bytes seed = g.u(3) ? g.bytes(32 + g.u(200)) : long_bytes(g, long_len(g, 0)), dom = seed; dom.push_back(2); size_t sl = seed.size(), a = g.u(200), n = long_len(g, 1 << 20), b = g.u(200); size_t ra = (a + 7) / 8 * 8, rn = (n + 7) / 8 * 8; Bytes e(ra + rn + b); ref::shake256(dom.data(), dom.size(), e.data(), e.size());
  GBuf sd(seed); kctx c; seedexpander_init(&c, sd, sl); GBuf oa(a), on(n), ob(b); seedexpander(&c, oa, a); seedexpander(&c, on, n); seedexpander(&c, ob, b); oa.check("expander output"); on.check("expander output"); ob.check("expander output"); seedexpander_release(&c);
  CHECK((!a || !memcmp(oa.p, e.data(), a)) && !memcmp(on.p, e.data() + ra, n) && (!b || !memcmp(ob.p, e.data() + ra + rn, b)), "seed expander stream differs (seed of %zu bytes, requests %zu %zu %zu)", sl, a, n, b);
  if (n > sl) { GBuf o(n); int rc = seedexpander_wrapper(sd, sl, o, n); o.check("expander output"); CHECK(rc == 0 && o.is(shake256v(dom, n)), "one-call seed expander output differs from the SHAKE-256 stream (%zu -> %zu bytes, rc %d)", sl, n, rc); }
  g.label(n >= 65536 ? ">=64k" : "<64k"); g.nontrivial(hash64(seed, n)); g.desc("seed of %zu bytes, requests %zu %zu %zu", sl, a, n, b);
}
static void long_nacl(Gen& g) {
  unsigned w = g.sweep(4); size_t n = long_len(g, w == 1 ? 4194304 + 64 * (1 + g.u(500)) : 1 << 20); if (w == 1 && g.u(4) == 0) n = 4194304 + 64 + g.u(20000); Bytes m = long_bytes(g, n), key = g.bytes(32), n24 = g.bytes(24), e(n); GBuf mm(m), kk(key), n2(n24); S what;
  if (w == 0) { e.resize(64); sha512(m.data(), n, e.data()); GBuf o(64); crypto_hash_sha512_tweet(o, mm, n); CHECK(o.is(e), "SHA-512 of %zu bytes differs", n); what = "sha512"; }
  else if (w == 1) { bool x = g.u(2), xr = g.u(2); if (x) xsalsa20_stream(e.data(), n, n24.data(), key.data()); else salsa20_stream(e.data(), n, n24.data(), key.data()); if (xr) for (size_t i = 0; i < n; i++) e[i] ^= m[i]; GBuf o(n); if (x) { if (xr) crypto_stream_xsalsa20_tweet_xor(o, mm, n, n2, kk); else crypto_stream_xsalsa20_tweet(o, n, n2, kk); } else { if (xr) crypto_stream_salsa20_tweet_xor(o, mm, n, n2, kk); else crypto_stream_salsa20_tweet(o, n, n2, kk); } o.check("stream"); CHECK(o.is(e), "%ssalsa20%s of %zu bytes differs", x ? "x" : "", xr ? "_xor" : "", n); what = n > 4194304 ? "stream >65536 blocks" : "stream"; }
  else if (w == 2) { e.resize(16); poly1305(e.data(), m.data(), n, key.data()); GBuf o(16); crypto_onetimeauth_poly1305_tweet(o, mm, n, kk); CHECK(o.is(e), "Poly1305 of %zu bytes differs", n); what = "poly1305"; }
  else { std::fill(m.begin(), m.begin() + 32, 0); GBuf mz(m), o(n), out(n); int rc = crypto_secretbox_xsalsa20poly1305_tweet(o, mz, n, n2, kk); o.check("box"); xsalsa20_stream(e.data(), n, n24.data(), key.data()); Bytes x(n); for (size_t i = 32; i < n; i++) x[i] = m[i] ^ e[i]; poly1305(x.data() + 16, x.data() + 32, n - 32, e.data()); CHECK(rc == 0 && o.is(x), "secretbox of %zu bytes differs (rc %d)", n, rc);
    GBuf c(x); rc = crypto_secretbox_xsalsa20poly1305_tweet_open(out, c, n, n2, kk); CHECK(rc == 0 && out.is(m), "secretbox open of %zu bytes failed (rc %d)", n, rc); size_t at = 16 + far_pos(g, n - 16); x[at] ^= 1u << g.u(8); GBuf d(x), o2(n); rc = crypto_secretbox_xsalsa20poly1305_tweet_open(o2, d, n, n2, kk); CHECK(rc != 0 && o2.all(0xA5), "secretbox open of %zu bytes altered at %zu returned %d or wrote plaintext", n, at, rc); what = "secretbox"; }
  g.label(what + (n >= 65536 ? " >=64k" : "")); g.nontrivial(hash64(m, hash64(key, w))); g.desc("%s %zu bytes", what.c_str(), n);
}

// ------------------------------------------------------------------------------------------ huge inputs: lengths past the 24-, 29-, 31- and 32-bit boundaries
// Sparse memory (pages never written cost nothing) that ends at an inaccessible page; a few bytes around every boundary are set.
struct Huge {
  uint8_t* p = nullptr; size_t n; uint8_t* base; size_t map;
  Huge(Gen& g, size_t len) : n(len) {
    map = (len + 4095) / 4096 * 4096; base = (uint8_t*)mmap(nullptr, map + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { base = nullptr; g.discard(); }
    madvise(base, map, MADV_NOHUGEPAGE); mprotect(base + map, 4096, PROT_NONE); p = base + map - len;
  }
  Huge(const Huge&) = delete;
  ~Huge() { if (base) munmap(base, map + 4096); }
  void sprinkle(Gen& g, size_t from = 0) { Prng r(g.u64()); auto put = [&](size_t at) { for (size_t i = at; i < at + 40 && i < n; i++) if (i >= from) p[i] = r.next(); }; put(from); put(n - std::min<size_t>(n - from, 40)); for (int k : {24, 28, 29, 30, 31, 32}) if (n > (1ull << k) + 40) put((1ull << k) - 20); }
};
static size_t huge_len(Gen& g, unsigned bits) { return (1ull << bits) + 1 + g.u(3000); }
static void huge_hash(Gen& g) {
  bool inc = g.sweep(2); unsigned a = g.u(5); const Alg& A = ALG[a]; size_t n = huge_len(g, 32), o = a < 2 ? 64 : A.out; Huge h(g, n); h.sprinkle(g); Bytes e(o); sponge(A.rate, A.suf, h.p, n, e.data(), o); GBuf out(o);
  if (!inc) switch (a) { case 0: ::shake128(out, o, h.p, n); break; case 1: ::shake256(out, o, h.p, n); break; case 2: ::sha3_256(out, h.p, n); break; case 3: ::sha3_384(out, h.p, n); break; default: ::sha3_512(out, h.p, n); }
  else { kctx c; size_t at = g.u(300); switch (a) {
    case 0: shake128_inc_init(&c); shake128_inc_absorb(&c, h.p, at); shake128_inc_absorb(&c, h.p + at, n - at); shake128_inc_finalize(&c); shake128_inc_squeeze(out, o, &c); shake128_inc_ctx_release(&c); break;
    case 1: shake256_inc_init(&c); shake256_inc_absorb(&c, h.p, at); shake256_inc_absorb(&c, h.p + at, n - at); shake256_inc_finalize(&c); shake256_inc_squeeze(out, o, &c); shake256_inc_ctx_release(&c); break;
    case 2: sha3_256_inc_init(&c); sha3_256_inc_absorb(&c, h.p, at); sha3_256_inc_absorb(&c, h.p + at, n - at); sha3_256_inc_finalize(out, &c); break;
    case 3: sha3_384_inc_init(&c); sha3_384_inc_absorb(&c, h.p, at); sha3_384_inc_absorb(&c, h.p + at, n - at); sha3_384_inc_finalize(out, &c); break;
    default: sha3_512_inc_init(&c); sha3_512_inc_absorb(&c, h.p, at); sha3_512_inc_absorb(&c, h.p + at, n - at); sha3_512_inc_finalize(out, &c); } }
  CHECK(out.is(e), "%s%s of %zu bytes differs from FIPS 202", inc ? "incremental " : "", A.name, n); g.label(S(A.name) + (inc ? " incremental" : "")); g.nontrivial(n * 5 + a); g.desc("%s%s of %zu bytes", inc ? "incremental " : "", A.name, n);
}
static void huge_output(Gen& g) {     // a long squeeze in one call, against the same squeeze in pieces
  bool w = g.sweep(2); size_t n = huge_len(g, 32), chunk = 1000003; Bytes in = g.bytes(g.u(300)); GBuf i(in); Huge h(g, n); (w ? ::shake128 : ::shake256)(h.p, n, i, in.size()); Bytes e(chunk); sponge(w ? 168 : 136, 0x1f, in.data(), in.size(), e.data(), chunk); CHECK(!memcmp(h.p, e.data(), chunk), "SHAKE-%u: %zu bytes of output start wrongly", w ? 128 : 256, n);
  kctx c; (w ? shake128_inc_init : shake256_inc_init)(&c); (w ? shake128_inc_absorb : shake256_inc_absorb)(&c, i, in.size()); (w ? shake128_inc_finalize : shake256_inc_finalize)(&c);
  for (size_t at = 0; at < n; at += chunk) { size_t l = std::min(chunk, n - at); (w ? shake128_inc_squeeze : shake256_inc_squeeze)(e.data(), l, &c); CHECK(!memcmp(h.p + at, e.data(), l), "SHAKE-%u: %zu bytes of output in one call differ from the same output in pieces near offset %zu", w ? 128 : 256, n, at); }
  (w ? shake128_inc_ctx_release : shake256_inc_ctx_release)(&c); g.label(w ? "shake128" : "shake256"); g.nontrivial(n); g.desc("%zu bytes of output", n);
}
static void huge_nacl(Gen& g) {
  unsigned w = g_thorough ? g.sweep(4) : 0; size_t n = huge_len(g, w ? 32 : 29); Bytes key = g.bytes(32), n24 = g.bytes(24); GBuf kk(key), nn(n24); Huge h(g, n); const char* what;
  if (w < 2) { h.sprinkle(g); Bytes e(64); sha512(h.p, n, e.data()); GBuf o(64); crypto_hash_sha512_tweet(o, h.p, n); CHECK(o.is(e), "SHA-512 of %zu bytes differs", n); what = "sha512"; }
  else if (w == 2) { h.sprinkle(g); Bytes e(16); poly1305(e.data(), h.p, n, key.data()); GBuf o(16); crypto_onetimeauth_poly1305_tweet(o, h.p, n, kk); CHECK(o.is(e), "Poly1305 of %zu bytes differs", n); what = "poly1305"; }
  else { Huge e(g, n); salsa20_stream(e.p, n, n24.data(), key.data()); crypto_stream_salsa20_tweet(h.p, n, nn, kk); CHECK(!memcmp(h.p, e.p, n), "salsa20 stream of %zu bytes differs", n); what = "salsa20"; }
  g.label(what); g.nontrivial(n * 4 + w); g.desc("%s of %zu bytes", what, n);
}
// A signature of a short message must not verify for a long message that is the short one under a truncated length; and honest long messages are signed and opened.
static void huge_dil(Gen& g) {
  Key k = pool_key(g.u(8)); Bytes pk = dpk(k), sk = dsk(k), e(DILS); GBuf p(pk), kk(sk); unsigned w = g.sweep(g_thorough ? 3 : 2); int rc; size_t n;
  if (w == 0) { n = huge_len(g, 24); Huge h(g, DILS + n); h.sprinkle(g, DILS); const uint8_t* m = h.p + DILS; dil::SignInfo inf; CHECK(dil::sign(sk.data(), m, n, e.data(), dil::SignOpts(), &inf), "harness: reference found no signature"); GBuf s(DILS), sl(8), ml(8); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(s, (size_t*)sl.p, m, n, kk); CHECK(rc == 0 && s.is(e), "Dilithium signature of a %zu-byte message differs from the specification (rc %d)", n, rc); memcpy(h.p, e.data(), DILS); Huge out(g, n); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(out.p, (size_t*)ml.p, h.p, DILS + n, p); CHECK(rc == 0 && *(size_t*)ml.p == n && !memcmp(out.p, m, n), "Dilithium open of a valid signed message failed (%zu-byte message, rc %d)", n, rc); }
  else if (w == 1) { unsigned b = g_thorough && g.u(4) == 0 ? 31 : 32; n = huge_len(g, b); size_t r = n - (1ull << b); Huge h(g, DILS + n); h.sprinkle(g, DILS); dil::SignInfo inf; CHECK(dil::sign(sk.data(), h.p + DILS, r, e.data(), dil::SignOpts(), &inf), "harness: reference found no signature"); memcpy(h.p, e.data(), DILS); GBuf ml(8), out(1); rc = g.u(2) ? PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(h.p, DILS, h.p + DILS, n, p) : PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(out, (size_t*)ml.p, h.p, DILS + n, p); CHECK(rc != 0, "Dilithium accepts a signature of the first %zu bytes for a message of %zu bytes", r, n); }
  else { n = huge_len(g, 32); Huge h(g, n); h.sprinkle(g); dil::SignInfo inf; CHECK(dil::sign(sk.data(), h.p, n, e.data(), dil::SignOpts(), &inf), "harness: reference found no signature"); GBuf s(DILS), sl(8); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature(s, (size_t*)sl.p, h.p, n, kk); CHECK(rc == 0 && s.is(e), "Dilithium signature of a %zu-byte message differs from the specification (rc %d)", n, rc); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(s, DILS, h.p, n, p); CHECK(rc == 0, "Dilithium verify refuses an honest signature of %zu bytes (%d)", n, rc); }
  g.label(strf("case %u", w)); g.nontrivial(n * 3 + w); g.desc("dilithium case %u, %zu bytes", w, n);
}
static void huge_spx(Gen& g) {
  Key k = pool_key(g.u(8)); Bytes pk = spk(k), sk = ssk(k), e(SPXS), opt = g.bytes(32); GBuf p(pk), kk(sk); unsigned w = g.sweep(g_thorough ? 3 : 2); int rc; size_t n;
  if (w == 1) { unsigned b = g_thorough && g.u(4) == 0 ? 31 : 32; n = huge_len(g, b); size_t r = n - (1ull << b); Huge h(g, SPXS + n); h.sprinkle(g, SPXS); spx::sign(sk.data(), opt.data(), h.p + SPXS, r, e.data()); memcpy(h.p, e.data(), SPXS); GBuf ml(8), out(1); rc = g.u(2) ? PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(h.p, SPXS, h.p + SPXS, n, p) : PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(out, (size_t*)ml.p, h.p, SPXS + n, p); CHECK(rc != 0, "SPHINCS+ accepts a signature of the first %zu bytes for a message of %zu bytes", r, n); }
  else { n = huge_len(g, w ? 32 : 24); Huge h(g, SPXS + n); h.sprinkle(g, SPXS); const uint8_t* m = h.p + SPXS; spx::sign(sk.data(), opt.data(), m, n, e.data()); GBuf s(SPXS), sl(8), ml(8); rng_queue(opt); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature(s, (size_t*)sl.p, m, n, kk); CHECK(rc == 0 && s.is(e), "SPHINCS+ signature of a %zu-byte message differs from the specification (rc %d)", n, rc); memcpy(h.p, e.data(), SPXS); Huge out(g, n); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(out.p, (size_t*)ml.p, h.p, SPXS + n, p); CHECK(rc == 0 && *(size_t*)ml.p == n && !memcmp(out.p, m, n), "SPHINCS+ open of a valid signed message failed (%zu-byte message, rc %d)", n, rc); }
  g.label(strf("case %u", w)); g.nontrivial(n * 3 + w); g.desc("sphincs case %u, %zu bytes", w, n);
}
static void huge_ed(Gen& g) {
  Key k = pool_key(g.u(8)); Bytes pk = slice(k.pk, 0, 32), sk = slice(k.sk, 0, 64), e(64); GBuf p(pk), kk(sk), ml(8); unsigned w = g_thorough ? g.sweep(2) : 0; size_t n = huge_len(g, w ? 32 : 31); int rc; Huge h(g, 64 + n), out(g, 64 + n); h.sprinkle(g, 64); ed_sign(sk.data(), h.p + 64, n, e.data());
  if (w) { rc = crypto_sign_ed25519_tweet(out.p, (ull*)ml.p, h.p + 64, n, kk); CHECK(rc == 0 && *(ull*)ml.p == 64 + n && !memcmp(out.p, e.data(), 64) && !memcmp(out.p + 64, h.p + 64, n), "Ed25519 signature of a %zu-byte message differs from RFC 8032 (rc %d)", n, rc); }
  memcpy(h.p, e.data(), 64); rc = crypto_sign_ed25519_tweet_open(out.p, (ull*)ml.p, h.p, 64 + n, p); CHECK(rc == 0 && *(ull*)ml.p == n && !memcmp(out.p, h.p + 64, n), "Ed25519 open of a valid signed message failed (%zu-byte message, rc %d)", n, rc);
  g.label(w ? "4 GiB" : "2 GiB"); g.nontrivial(n); g.desc("ed25519 %zu bytes", n);
}

REGISTER {
  reg("C16", "keygen", c16_keygen).on("rel", 8000, 200000).guided("cov", 8000, 40000);
  reg("C16", "sign", c16_sign).on("rel", 20000, 400000).guided("cov", 4000, 40000);
  reg("C16", "extreme-t0", c16_t0).on("rel", 1500, 60000);
  reg("C16", "long", long_dil).on("rel", 400, 20000);
  reg("C17", "long", long_dil).on("rel", 400, 20000);
  reg("C17", "verify", c17).on("rel", 8000, 500000).guided("cov", 3200, 40000);
  reg("C18", "long", long_spx).on("rel", 24, 1500);
  reg("C19", "long", long_spx).on("rel", 24, 1500);
  reg("C18", "keygen", c18_keygen).on("rel", 1200, 40000).guided("cov", 240, 4000);
  reg("C18", "sign", c18_sign).on("rel", 480, 9000).guided("cov", 64, 1000);
  reg("C19", "flip", c19_flip).on("rel", 4674, 100000);
  reg("C19", "verify", c19).on("rel", 3000, 30000).guided("cov", 800, 8000);
  reg("C19", "valid", c19_valid).on("rel", 320, 16000);
  reg("C19", "root", c19_root).on("rel", 8, 8);
  reg("C20", "long", long_ed).on("rel", 300, 10000);
  reg("C20", "sign", c20_sign).on("rel", 6000, 200000).guided("cov", 1600, 40000);
  reg("C20", "verify", c20_verify).on("rel", 10000, 300000).guided("cov", 1600, 40000);
  reg("C21", "long", long_hash).on("rel", 400, 20000);
  reg("C21", "oneshot", c21_oneshot).on("rel", 300000, 600000).guided("cov", 60000, 600000);
  reg("C21", "blocks", c21_blocks).on("rel", 60000, 200000).guided("cov", 20000, 200000);
  reg("C21", "incremental", c21_inc).on("rel", 300000, 6000000).on("asan", 20000, 400000).guided("cov", 60000, 200000);
  reg("C26", "hash-contexts", c21_inc).on("rel", 20000, 200000);
  reg("C26", "hash-blocks", c21_blocks).on("rel", 10000, 100000);
  reg("C26", "expander-contexts", c22_stream).on("rel", 20000, 200000);
  reg("C22", "long", long_expander).on("rel", 400, 20000);
  reg("C22", "stream", c22_stream).on("rel", 400000, 8000000).on("asan", 20000, 400000).guided("cov", 80000, 200000);
  reg("C22", "wrapper", c22_wrapper).on("rel", 400000, 8000000).on("asan", 20000, 400000).guided("cov", 80000, 200000);
  reg("C24", "long", long_nacl).on("rel", 400, 10000);
  reg("C24", "sha512", c24_hash).on("rel", 200000, 300000).guided("cov", 20000, 200000);
  reg("C24", "stream", c24_stream).on("rel", 200000, 3000000).guided("cov", 40000, 100000);
  reg("C24", "poly1305", c24_poly).on("rel", 400000, 6000000).guided("cov", 40000, 100000);
  reg("C24", "x25519", c24_x25519).on("rel", 20000, 500000).guided("cov", 4000, 100000);
  reg("C24", "box", c24_box).on("rel", 20000, 400000).guided("cov", 6000, 100000);
  reg("C24", "misc", c24_misc).on("rel", 40000, 1000000).guided("cov", 8000, 100000);
  reg("C16", "huge", huge_dil).cpulimit(900).on("rel", 2, 6);
  reg("C17", "huge", huge_dil).cpulimit(900).on("rel", 2, 6);
  reg("C18", "huge", huge_spx).cpulimit(900).on("rel", 2, 6);
  reg("C19", "huge", huge_spx).cpulimit(900).on("rel", 2, 6);
  reg("C20", "huge", huge_ed).cpulimit(900).on("rel", 1, 2);
  reg("C21", "huge", huge_hash).cpulimit(900).on("rel", 2, 16);
  reg("C24", "huge", huge_nacl).cpulimit(900).on("rel", 1, 4);
  reg("C21", "huge-output", huge_output).cpulimit(900).on("rel", 0, 2);
};
