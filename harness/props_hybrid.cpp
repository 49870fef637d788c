// C01-C06, C12, C14, C15: the hybrid scheme.
#include "craft.h"
#include <algorithm>
#ifdef IDEAL
Bytes craft_ed_flipR(const Key&, const Bytes&, const Bytes&, unsigned, uint8_t) { return Bytes(); }
Bytes craft_ed_zeroR(const Key&, const Bytes&, uint64_t, unsigned, uint8_t) { return Bytes(); }
Bytes craft_dil_flipC(const Key&, const Bytes&, unsigned, uint8_t) { return Bytes(); }
Bytes craft_dil_z(const Key&, const Bytes&, int, int, int) { return Bytes(); }
Bytes craft_dil_hint(const Bytes&, unsigned, unsigned, unsigned) { return Bytes(); }
Key craft_spx_badroot(const Key& k, unsigned pos, uint8_t mask) { Key x = k; x.pk[PK_SPX + 32 + pos % 32] ^= mask; return x; }
Key key_zero_root() { return pool_key(0); }
std::string craft_dil_free(Gen&, const Bytes&, Bytes*, Bytes*) { return ""; }
#endif

static size_t xlen(Mode m) { return m == FULL ? FULLX : COMPX; }

// ------------------------------------------------------------------------------------------ C01 / C02
static void roundtrip(Gen& g, Mode mode) {
  size_t n = 1 + g.sweep(64);
  if (g.u(4) == 0) n = g.len(1, 64);
  Bytes pk, sk; unsigned how = g.u(5);
  bool left = g.u(4) == 3;
  if (how <= 1 && !kIdeal) {                                 // key made by the library from a cached seed
    static std::map<unsigned, Key> cache; unsigned i = g.u(6); if (!cache.count(i)) { Bytes s(160); Prng(mix64(900 + i)).fill(s.data(), 160); Key k; CHECK(lib_keypair_seed(s, &k.pk, &k.sk) == 0, "seeded key generation failed"); cache[i] = k; }
    pk = cache[i].pk; sk = cache[i].sk;
  } else if (how == 2 || kIdeal) {                           // freshly seeded by the library
    Bytes s = g.bytes(160); CHECK(lib_keypair_seed(s, &pk, &sk) == 0, "seeded key generation failed");
  } else if (how == 3) {                                     // random key generation, entropy chosen by the generator
    rng_queue(g.bytes(160)); GBuf p(PKB), k(SKB); CHECK(crypto_sign_dilithium_ed25519_sphincs_keypair(p, k) == 0, "random key generation failed"); pk = p.get(); sk = k.get();
  } else { Key k = gen_key(g); pk = k.pk; sk = k.sk; }
  Bytes m = g.bytes(n);
  rng_seed(g.u64()); if (g.u(2)) rng_queue(g.bytes(mode == FULL ? 32 : 40));
  SignRes s = lib_sign(mode, m, sk, left);
  CHECK(s.rc == 0, "%s signing of a %zu-byte message failed with %d", mname(mode), n, s.rc);
  CHECK(s.smlen == xlen(mode) + n, "%s signing reported length %llu for a %zu-byte message", mname(mode), (ull)s.smlen, n);
  OpenRes o = lib_open(mode, s.sm, pk, left);
  CHECK(o.rc == 0, "%s open of an honest signature of a %zu-byte message failed with %d (message %s)", mname(mode), n, o.rc, hex(m).c_str());
  CHECK(o.mlen == n, "%s open reported message length %llu instead of %zu", mname(mode), (ull)o.mlen, n);
  CHECK(!memcmp(o.m.data(), m.data(), n), "%s open returned another message", mname(mode));
  CHECK(lib_verify(mode, m, s.sm, pk) == 0, "%s verify of an honest signature failed", mname(mode));
  g.label(strf("mlen/8=%zu", n / 8)); g.nontrivial(hash64(m, hash64(pk))); g.desc("%s: %zu-byte message %s, key kind %u, pk %s", mname(mode), n, hex(m, 12).c_str(), how, hex(pk, 8).c_str());
}
static void c01(Gen& g) { roundtrip(g, FULL); }
static void c02(Gen& g) { roundtrip(g, COMPACT); }

// ------------------------------------------------------------------------------------------ candidates
struct Cand { Mode mode; Bytes sm, pk, m; std::string kind; int parts = 7; };
// the guided mode may overwrite parts of the finished candidate; verdicts are computed afterwards
static void splice(Gen& g, Cand& c) { Bytes a = c.sm, b = c.pk; g.splice(c.sm); g.splice(c.pk); if (a != c.sm || b != c.pk) { c.parts = -1; c.kind += " spliced"; } }

static Bytes damage(Gen& g, Bytes b, std::string* how) {     // changed in at least one bit
  if (b.empty()) return b;
  switch (g.u(7)) {
    case 5: { size_t p = g.u(b.size()), l = std::min<size_t>(b.size() - p, 1 + g.u(g.u(2) ? 8 : 200)); uint8_t v = g.u(2) ? 0 : 0xff; Bytes o = b; memset(b.data() + p, v, l); if (b == o) b[p] ^= 1; *how = strf("fill%02x@%zu+%zu", v, p, l); break; }
    case 0: { size_t p = g.u(b.size()); uint8_t k = 1u << g.u(8); b[p] ^= k; *how = strf("bit@%zu", p); break; }
    case 1: { size_t p = g.u(b.size()); b[p] ^= 1 + g.u(255); *how = strf("byte@%zu", p); break; }
    case 2: { size_t p = b.size() - 1 - g.u(std::min<size_t>(b.size(), 40)); b[p] ^= 1u << g.u(8); *how = strf("tail@%zu", p); break; }
    case 3: { size_t p = g.u(std::min<size_t>(b.size(), 40)); b[p] ^= 1u << g.u(8); *how = strf("head@%zu", p); break; }
    case 4: { Bytes r = g.bytes(b.size()); if (r == b) r[0] ^= 1; b = r; *how = "replaced"; break; }
    default: { size_t p = g.u(b.size()), q = g.u(b.size()); b[p] ^= 0x80; if (q != p) b[q] ^= 0x80; *how = strf("two@%zu,%zu", p, q); }
  }
  return b;
}

static const std::pair<Key, Bytes>& badroot_pool(unsigned i) {   // full signature whose SPHINCS+ part only fails in the final comparison
  static std::map<unsigned, std::pair<Key, Bytes>> c; auto it = c.find(i); if (it != c.end()) return it->second;
  Prng r(mix64(i * 31 + g_seed * 7 + 5)); bool z = i & 1; Key base = z ? key_zero_root() : pool_key(0);
  Key k = craft_spx_badroot(base, z ? 1 + r.next() % 31 : r.next() % 32, 1u << (r.next() % 8));
  Bytes m(1 + r.next() % 64), o(32); r.fill(m.data(), m.size()); r.fill(o.data(), 32);
  return c.emplace(i, std::make_pair(k, hyr_sign_full(k, m, o))).first->second;
}

// full signature with every part chosen independently
static Cand cand_full_parts(Gen& g, int force = -1) {
  Cand c; c.mode = FULL; Bytes m; Key k, k2; Parts a, b, d;
  if (!kIdeal) { unsigned ki = g.u(2); k = pool_key(ki); k2 = pool_key(1 - ki); Bytes m2; a = split_full(pool_full_sig(ki, g.u(3), &m)); b = split_full(pool_full_sig(ki, 3, &m2)); d = split_full(pool_full_sig(1 - ki, g.u(3), &m2)); }
  else { k = gen_key(g); k2 = gen_key(g); if (k2.pk == k.pk) k2 = pool_key(100); m = gen_msg(g); Bytes m2 = gen_msg(g); if (m2 == m) m2[0] ^= 1; a = split_full(hyr_sign_full(k, m, g.rnd(32))); b = split_full(hyr_sign_full(k, m2, g.rnd(32))); d = split_full(hyr_sign_full(k2, m, g.rnd(32))); }
  c.pk = k.pk;
  std::string kind;
  unsigned valid = force >= 0 ? force : g.sweep(8);          // bit i: part i left valid
  Bytes part[3];
  for (int i = 0; i < 3; i++) {
    auto get = [&](const Parts& p) { return i == 0 ? p.ed : i == 1 ? p.dil : p.spx; };
    if (valid >> i & 1) { part[i] = get(a); kind += "V"; continue; }
    unsigned w = g.u(8); std::string h;
    if (w <= 1) { part[i] = get(b); kind += "M"; }            // same key, other message
    else if (w == 2) { if (kIdeal || i == 2) part[i] = get(d); else part[i] = i == 0 ? ed_sig(k2, m) : dil_sig(k2, m); kind += "K"; }  // other key, same message for the cheap parts
    else if (w == 3) { part[i] = Bytes(get(a).size(), g.u(2) ? 0xff : 0); kind += "0"; }
    else if (w == 4 && !kIdeal && i == 0) { part[0] = craft_ed_flipR(k, m, g.rnd(32), g.u(32), 1u << g.u(8)); kind += "R"; }
    else if (w == 4 && !kIdeal && i == 1) { part[1] = craft_dil_flipC(k, m, g.u(32), 1u << g.u(8)); if (part[1].empty()) part[1] = get(b); kind += "C"; }
    else if (w == 5 && !kIdeal && i == 0) { part[0] = craft_ed_zeroR(k, m, g.u64(), 1 + g.u(31), 1u << g.u(8)); kind += "Z"; }
    else if (w == 5 && !kIdeal && i == 1) { part[1] = craft_dil_z(k, m, g.u(4), g.u(256), (ref::dil::GAMMA1 - ref::dil::BETA) * (g.u(2) ? 1 : -1)); if (part[1].empty()) part[1] = get(b); kind += "B"; }
    else { part[i] = damage(g, get(a), &h); kind += "D"; }
  }
  if (!kIdeal && g.u(5) == 4) {   // the Dilithium part is a signature at the edge of the acceptance conditions, under a key made for it
    Bytes dp; craft_dil_free(g, m, &dp, &part[1]); std::copy(dp.begin(), dp.end(), c.pk.begin() + PK_DIL); kind[1] = 'E'; valid = (valid & 5) | (ref::dil::verify(dp.data(), m.data(), m.size(), part[1].data()) ? 2 : 0);
  }
  c.m = m; c.sm = join_full(m, part[0], part[1], part[2]); c.kind = "parts:" + kind; c.parts = valid; return c;
}

// digests that differ from the specified one; each properly signed by both parts
static Bytes odd_digest(Gen& g, const Key& k, const Bytes& m, const Bytes& nonce, std::string* kind) {
  Bytes in; const uint8_t* sp = k.pk.data() + PK_SPX; unsigned w = g.u(12);
  auto add = [&](const uint8_t* p, size_t n) { in.insert(in.end(), p, p + n); };
  Bytes pad = m; pad.resize(64, 0);
  Bytes o(64);
  switch (w) {
    case 0: add(nonce.data(), 40); add(m.data(), m.size()); *kind = "no-spx"; break;
    case 1: add(m.data(), m.size()); add(sp, 64); *kind = "no-nonce"; break;
    case 2: add(nonce.data(), 40); add(sp, 64); *kind = "no-msg"; break;
    case 3: add(nonce.data(), 40); add(sp, 64); add(m.data(), m.size()); *kind = "order"; break;
    case 4: add(nonce.data(), 40); add(pad.data(), 64); add(sp, 64); *kind = "padded"; break;
    case 5: add(nonce.data(), 32); add(m.data(), m.size()); add(sp, 64); *kind = "nonce32"; break;
    case 6: add(nonce.data(), 40); add(m.data(), m.size()); add(sp, 32); *kind = "spx32"; break;
    case 7: add(nonce.data(), 40); add(m.data(), m.size()); add(sp, 64); ref::sha3_256(in.data(), in.size(), o.data()); *kind = "sha3-256"; return o;
    case 8: add(nonce.data(), 40); add(m.data(), m.size()); add(sp, 64); ref::shake256(in.data(), in.size(), o.data(), 64); *kind = "shake"; return o;
    case 9: { add(nonce.data(), 40); add(m.data(), m.size()); add(sp, 64); size_t p = g.u(in.size()); in[p] ^= 1u << g.u(8); *kind = p < 40 ? "bit-nonce" : p < 40 + m.size() ? "bit-msg" : "bit-spx"; break; }
    case 10: add(nonce.data(), 40); add(m.data(), m.size()); add(sp, 64); ref::sha512(in.data(), in.size(), o.data()); *kind = "sha512"; return o;
    default: { Bytes full = hyr_digest(nonce.data(), m.data(), m.size(), sp); size_t p = g.u(64); full[p] ^= 1u << g.u(8); *kind = "bit-digest"; return full; }
  }
  ref::sha3_512(in.data(), in.size(), o.data()); return o;
}

static Cand cand_compact_parts(Gen& g) {
  Cand c; c.mode = COMPACT; Key k = gen_key(g), k2 = pool_key(20 + g.u(4)); Bytes m = gen_msg(g), nonce = g.bytes(40); c.pk = k.pk; c.m = m;
  Bytes d = hyr_digest(nonce.data(), m.data(), m.size(), k.pk.data() + PK_SPX); std::string kind, h;
  unsigned top = g.sweep(8); c.parts = 3;
  if (top == 4 || top == 5) {                              // both parts sign a wrong digest
    std::string dk; Bytes dd = odd_digest(g, k, m, nonce, &dk); unsigned which = g.u(3);   // 0 both, 1 only ed, 2 only dil
    c.sm = join_compact(m, ed_sig(k, which == 2 ? d : dd), dil_sig(k, which == 1 ? d : dd), nonce); c.kind = strf("digest:%s/%u", dk.c_str(), which); c.parts = which == 1 ? 2 : which == 2 ? 1 : 0; return c;
  }
  if (top == 6) { Key k3 = k; memcpy(k3.pk.data() + PK_SPX, k2.pk.data() + PK_SPX, 64); memcpy(k3.sk.data() + SK_SPXPK, k2.pk.data() + PK_SPX, 64); if (k3.pk == k.pk) { k3.pk[PK_SPX + g.u(64)] ^= 1; } c.sm = hyr_sign_compact(k, m, nonce); c.pk = k3.pk; c.kind = "spx-key-swapped"; c.parts = 0; return c; }
  if (top == 7) { c.sm = hyr_sign_compact(k, m, nonce); c.kind = "honest"; return c; }
  Bytes part[2]; c.parts = top;
  for (int i = 0; i < 2; i++) {
    Bytes good = i ? dil_sig(k, d) : ed_sig(k, d);
    if (top >> i & 1) { part[i] = good; kind += "V"; continue; }
    unsigned w = g.u(8);
    if (w == 0) { Bytes d2 = d; d2[g.u(64)] ^= 1u << g.u(8); part[i] = i ? dil_sig(k, d2) : ed_sig(k, d2); kind += "M"; }
    else if (w == 1) { part[i] = i ? dil_sig(k2, d) : ed_sig(k2, d); kind += "K"; }
    else if (w == 2) { part[i] = Bytes(good.size(), g.u(2) ? 0xff : 0); kind += "0"; }
    else if (w == 3) { part[i] = i ? dil_sig(k, m) : ed_sig(k, m); kind += "F"; }           // signs the bare message
    else if (w == 4 && !kIdeal) { part[i] = i ? craft_dil_flipC(k, d, g.u(32), 1u << g.u(8)) : craft_ed_flipR(k, d, g.rnd(32), g.u(32), 1u << g.u(8)); kind += "C"; if (part[i].empty()) part[i] = Bytes(good.size(), 0); }
    else if (w == 5 && !kIdeal) { part[i] = i ? craft_dil_z(k, d, g.u(4), g.u(256), (ref::dil::GAMMA1 - ref::dil::BETA) * (g.u(2) ? 1 : -1)) : craft_ed_flipR(k, d, g.rnd(32), 31, 0x80); if (part[i].empty()) part[i] = Bytes(good.size(), 0); kind += "B"; }
    else { part[i] = damage(g, good, &h); kind += "D"; }
  }
  if (!kIdeal && g.u(5) == 4) { Bytes dp; craft_dil_free(g, d, &dp, &part[1]); std::copy(dp.begin(), dp.end(), c.pk.begin() + PK_DIL); kind[1] = 'E'; c.parts = (top & 1) | (ref::dil::verify(dp.data(), d.data(), d.size(), part[1].data()) ? 2 : 0); }
  c.sm = join_compact(m, part[0], part[1], nonce); c.kind = "parts:" + kind; return c;
}

// an honest signature subjected to one alteration (or none)
static Cand cand_altered(Gen& g, Mode mode) {
  Cand c; c.mode = mode; Key k; 
  if (mode == FULL && !kIdeal) { unsigned ki = g.u(2); k = pool_key(ki); c.sm = pool_full_sig(ki, g.u(3), &c.m); }
  else { k = gen_key(g); c.m = gen_msg(g); c.sm = mode == FULL ? hyr_sign_full(k, c.m, g.bytes(32)) : hyr_sign_compact(k, c.m, g.bytes(40)); }
  c.pk = k.pk; std::string h; size_t n = c.m.size();
  switch (g.u(18)) {
    case 16: case 17: { // one whole field (or the start of it) replaced
      std::vector<std::pair<size_t, size_t>> f = {{2, 32}, {34, 32}, {2, 64}}; size_t d = mode == FULL ? 66 + n : 66; f.push_back({d, 32}); f.push_back({d, DILS}); f.push_back({d + 32, DILS - 32 - 84}); f.push_back({d + DILS - 84, 84});
      if (mode == FULL) { f.push_back({66, n}); f.push_back({d + DILS, 32}); f.push_back({d + DILS, SPXS}); f.push_back({d + DILS + 32, SPXS - 32}); } else { f.push_back({66 + DILS, 40}); f.push_back({COMPX, n}); f.push_back({66 + DILS, 40 + n}); }
      auto [o, l] = f[g.u(f.size())]; if (g.u(2)) l = std::min<size_t>(l, 1 + g.u(8)); unsigned w = g.u(4); Bytes old = c.sm;
      if (w == 3) { Bytes r = g.rnd(l); std::copy(r.begin(), r.end(), c.sm.begin() + o); } else if (w == 2 && l > 1) std::rotate(c.sm.begin() + o, c.sm.begin() + o + 1, c.sm.begin() + o + l); else memset(c.sm.data() + o, w == 1 ? 0xff : 0, l);
      c.kind = strf("field%u@%zu+%zu", w, o, l); break; }
    case 0: c.kind = "honest"; break;
    case 1: case 2: case 3: c.sm = damage(g, c.sm, &h); c.kind = "sig-" + h; break;
    case 4: case 5: c.pk = damage(g, c.pk, &h); c.kind = "pk-" + h; break;
    case 6: c.sm[0] = g.u(256); c.kind = strf("id=%u", c.sm[0]); break;
    case 7: c.sm[1] = g.u(2) ? g.u(256) : n + g.u(5) - 2; c.kind = strf("len=%u", c.sm[1]); break;
    case 8: { size_t d = 1 + g.u(g.u(2) ? 3 : std::min<size_t>(c.sm.size(), 3000)); d = std::min(d, c.sm.size()); c.sm.resize(c.sm.size() - d); c.kind = strf("truncated-%zu", d); if (g.u(2) && c.sm.size() > 1) { c.sm[1] -= d; c.kind += "+len"; } break; }
    case 9: { size_t d = 1 + g.u(g.u(2) ? 3 : 70); Bytes t = g.bytes(d); c.sm.insert(c.sm.end(), t.begin(), t.end()); c.kind = strf("extended+%zu", d); if (g.u(2)) { c.sm[1] += d; c.kind += "+len"; } break; }
    case 10: { // insert or delete a byte in the message field, length byte adjusted
      size_t at = (mode == FULL ? 66 : COMPX) + g.u(n); if (g.u(2) || n == 1) { c.sm.insert(c.sm.begin() + at, (uint8_t)g.u(256)); c.sm[1]++; c.kind = "msg-insert"; } else { c.sm.erase(c.sm.begin() + at); c.sm[1]--; c.kind = "msg-delete"; } break; }
    case 11: { size_t at = (mode == FULL ? 66 : COMPX) + g.u(n); c.sm[at] ^= 1u << g.u(8); c.kind = strf("msg-bit@%zu", at); break; }
    case 12: if (!kIdeal) { for (int t = 1 + g.u(15); t > 0; t--) if (!ref::sc_add_L(c.sm.data() + 34, 1)) break; c.kind = "S+L"; } else { c.sm[65] ^= 0x10; c.kind = "S"; } break;
    case 13: if (!kIdeal) { Bytes d(c.sm.begin() + (mode == FULL ? 66 + n : 66), c.sm.begin() + (mode == FULL ? 66 + n : 66) + DILS); unsigned kk = g.u(6); Bytes x = craft_dil_hint(d, kk, g.u(80), g.u(256)); if (!x.empty()) std::copy(x.begin(), x.end(), c.sm.begin() + (mode == FULL ? 66 + n : 66)); c.kind = strf("hint%u%s", kk, x.empty() ? "-none" : ""); } else { c.sm[66] ^= 1; c.kind = "x"; } break;
    case 14: { // rotate or swap fields
      if (mode == COMPACT) { size_t a = 66 + g.u(DILS), b = 2 + g.u(c.sm.size() - 2); std::swap(c.sm[a], c.sm[b]); c.kind = "swap-bytes"; } else { size_t a = 2 + g.u(c.sm.size() - 2), b = 2 + g.u(c.sm.size() - 2); std::swap(c.sm[a], c.sm[b]); c.kind = "swap-bytes"; } break; }
    default: { Bytes r = g.bytes(c.sm.size()); r[0] = mode == FULL ? 2 : 1; if (g.u(2)) r[1] = n; c.sm = r; c.kind = "garbage"; }
  }
  return c;
}

// an honest signature (or one with a single invalid part), left to the guided mode to overwrite
static Cand cand_plain(Gen& g, Mode mode) {
  Cand c; c.mode = mode; Key k; std::string h;
  if (mode == FULL && !kIdeal) { unsigned ki = g.u(2); k = pool_key(ki); c.sm = pool_full_sig(ki, g.u(3), &c.m); }
  else { k = gen_key(g); c.m = gen_msg(g); c.sm = mode == FULL ? hyr_sign_full(k, c.m, g.bytes(32)) : hyr_sign_compact(k, c.m, g.bytes(40)); }
  c.pk = k.pk; c.kind = "plain"; size_t d = mode == FULL ? 66 + c.m.size() : 66;
  switch (g.u(8)) { case 5: c.sm[2 + g.u(64)] ^= 1u << g.u(8); c.kind = "ed"; break; case 6: c.sm[d + g.u(DILS)] ^= 1u << g.u(8); c.kind = "dil"; break; case 7: if (mode == FULL) c.sm[d + DILS + g.u(SPXS)] ^= 1u << g.u(8); else c.pk[PK_SPX + g.u(64)] ^= 1u << g.u(8); c.kind = "spx"; break; default: break; }
  return c;
}
static Cand gen_cand(Gen& g, Mode mode) {
  Cand c; switch (g.u(4)) { case 0: c = mode == FULL ? cand_full_parts(g, g.u(8)) : cand_compact_parts(g); break; default: c = cand_altered(g, mode); }
  splice(g, c); return c;
}

// judge open+verify of a candidate against the reference verdict
static bool judge(Gen& g, Cand& c, bool both = true) {
  splice(g, c);
  Bytes em; bool want = c.mode == FULL ? hyr_open_full(c.sm, c.pk, &em) : hyr_open_compact(c.sm, c.pk, &em);
  OpenRes o = lib_open(c.mode, c.sm, c.pk, g.u(4) == 3);
  CHECK((o.rc == 0) == want, "%s open returned %d, but the signature (%s) %s", mname(c.mode), o.rc, c.kind.c_str(), want ? "is valid" : "must be rejected");
  if (want) CHECK(o.mlen == em.size() && !memcmp(o.m.data(), em.data(), em.size()), "%s open returned the wrong message", mname(c.mode));
  if (both && !c.m.empty()) {
    int v = lib_verify(c.mode, c.m, c.sm, c.pk); bool vw = want && em == c.m;
    CHECK((v == 0) == vw, "%s verify returned %d, but the signature (%s) %s", mname(c.mode), v, c.kind.c_str(), vw ? "is valid" : "must be rejected");
  }
  return want;
}
static void report(Gen& g, const Cand& c, bool want) {
  std::string k = c.kind.substr(0, c.kind.find_first_of("@0123456789")); g.label(k + (want ? " accepted" : " rejected"));
  g.nontrivial(hash64(c.sm, hash64(c.pk, hash64(c.m)))); g.desc("%s %s, %zu-byte message, %zu-byte signature -> %s", mname(c.mode), c.kind.c_str(), c.m.size(), c.sm.size(), want ? "accepted" : "rejected");
}

// ------------------------------------------------------------------------------------------ C03
static void c03_parts(Gen& g) {
  Cand c = cand_full_parts(g); bool w = judge(g, c, g.u(3) == 0);
  if (c.parts == 7) CHECK(w, "an honestly assembled signature is not valid (harness)");
  report(g, c, w);
}
static void spliced_f(Gen& g) { Cand c = cand_plain(g, FULL); bool w = judge(g, c); report(g, c, w); }
static void spliced_c(Gen& g) { Cand c = cand_plain(g, COMPACT); bool w = judge(g, c); report(g, c, w); }
static void c03_root(Gen& g) {    // SPHINCS+ wrong only in the final comparison; other parts valid
  const auto& p = badroot_pool(g.sweep(4) + 4 * (g.idx / 8 % 3)); Cand c; c.mode = FULL; c.sm = p.second; c.pk = p.first.pk; c.m = split_full(c.sm).m; c.kind = "root-mismatch"; bool w = judge(g, c); CHECK(!w, "harness: bad root accepted by the reference"); report(g, c, w);
}
// ------------------------------------------------------------------------------------------ C04
static void c04_parts(Gen& g) { Cand c = cand_compact_parts(g); bool w = judge(g, c, g.u(3) == 0); if (c.parts == 3) CHECK(w, "an honestly assembled signature is not valid (harness)"); report(g, c, w); }
static void c03_altered(Gen& g) { Cand c = cand_altered(g, FULL); bool w = judge(g, c, g.u(3) == 0); report(g, c, w); }
static void c04_altered(Gen& g) { Cand c = cand_altered(g, COMPACT); bool w = judge(g, c, g.u(3) == 0); report(g, c, w); }

// ------------------------------------------------------------------------------------------ C05
static void c05_flip(Gen& g, Mode mode) {     // every position in turn
  Key k; Bytes m, s;
  if (mode == FULL && !kIdeal) { k = pool_key(0); s = pool_full_sig(0, 0, &m); } else { static Key sk = pool_key(1); static Bytes sm_, ss; if (ss.empty()) { Bytes n(40); Prng(g_seed + 3).fill(n.data(), 40); sm_.resize(37); Prng(g_seed + 4).fill(sm_.data(), 37); ss = mode == FULL ? hyr_sign_full(sk, sm_, Bytes(32, 7)) : hyr_sign_compact(sk, sm_, n); } k = sk; m = sm_; s = ss; }
  size_t total = s.size() + PKB + m.size(); uint64_t at;
  if (mode == FULL && !kIdeal) {   // SPHINCS+ part sampled one position per 32-byte node, the rest byte by byte
    size_t head = s.size() - SPXS, nodes = SPXS / 32; uint64_t i = g.sweep(head + nodes + PKB + m.size());
    at = i < head ? i : i < head + nodes ? head + (i - head) * 32 + g.u(32) : i - head - nodes + s.size();
  } else at = g.sweep(total);
  uint8_t mask = 1u << g.u(8); if (g.u(4) == 3) mask = 1 + g.u(255);
  Cand c; c.mode = mode; c.sm = s; c.pk = k.pk; c.m = m; const char* what;
  if (at < s.size()) { c.sm[at] ^= mask; what = "signature"; } else if (at < s.size() + PKB) { c.pk[at - s.size()] ^= mask; what = "public key"; } else { c.m[at - s.size() - PKB] ^= mask; what = "message"; }
  bool msgonly = at >= s.size() + PKB;
  OpenRes o{}; if (!msgonly) { o = lib_open(mode, c.sm, c.pk); CHECK(o.rc != 0, "%s open accepts after changing byte %llu of signature||public key||message (%s, xor %02x)", mname(mode), (ull)at, what, mask); }
  int v = lib_verify(mode, c.m, c.sm, c.pk); CHECK(v != 0, "%s verify accepts after changing byte %llu of signature||public key||message (%s, xor %02x)", mname(mode), (ull)at, what, mask);
  g.label(what); g.nontrivial(hash64(&at, 8, mask)); g.desc("%s: %s offset %llu xor %02x", mname(mode), what, (ull)at, mask);
}
static void c05_flip_c(Gen& g) { c05_flip(g, COMPACT); }
static void c05_flip_f(Gen& g) { c05_flip(g, FULL); }
static void c05_msg(Gen& g, Mode mode) {      // every message length; every byte of the message handed to verify altered
  size_t n = 1 + g.sweep(64); Key k = gen_key(g); Bytes m = g.bytes(n), s;
  if (mode == FULL && !kIdeal) { SignRes r = lib_sign(FULL, m, k.sk); CHECK(r.rc == 0, "full signing failed with %d", r.rc); s = r.sm; }
  else s = mode == FULL ? hyr_sign_full(k, m, g.bytes(32)) : hyr_sign_compact(k, m, g.bytes(40));
  bool all = kIdeal; unsigned bit0 = g.u(8); uint8_t odd = 1 + g.u(255);
  for (size_t i = 0; i < n; i++) for (unsigned b = 0; b < 9; b++) {
    if (!all && b != (bit0 + i) % 8 && !(mode == COMPACT && b == 8)) continue;
    Bytes mm = m; mm[i] ^= b < 8 ? 1u << b : odd; int v = lib_verify(mode, mm, s, k.pk);
    CHECK(v != 0, "%s verify accepts a %zu-byte message that differs from the signed one in byte %zu (xor %02x)", mname(mode), n, i, mm[i] ^ m[i]);
  }
  g.nontrivial(hash64(m, hash64(k.pk))); g.desc("%s: %zu-byte message, every byte altered", mname(mode), n);
}
static void c05_msg_c(Gen& g) { c05_msg(g, COMPACT); }
static void c05_msg_f(Gen& g) { c05_msg(g, FULL); }
static void c05_mall(Gen& g, Mode mode) {     // alterations must not be accepted unless the string is unchanged
  Cand c = cand_altered(g, mode); splice(g, c);
  Bytes em; bool want = mode == FULL ? hyr_open_full(c.sm, c.pk, &em) : hyr_open_compact(c.sm, c.pk, &em);
  OpenRes o = lib_open(mode, c.sm, c.pk);
  CHECK((o.rc == 0) == want, "%s open returned %d for an altered signature (%s)", mname(mode), o.rc, c.kind.c_str());
  // verification against a different message
  Bytes mm = c.m; std::string h2; unsigned w = g.u(5);
  if (w == 0) mm = damage(g, mm, &h2); else if (w == 1) mm.push_back(g.u(256)); else if (w == 2 && mm.size() > 1) mm.pop_back(); else if (w == 3) mm.insert(mm.begin(), g.u(256)); else if (mm.size() > 1) mm.erase(mm.begin());
  if (mm.size() >= 1 && mm.size() <= 64 && mm != em) { int v = lib_verify(mode, mm, c.sm, c.pk); CHECK(v != 0, "%s verify accepts a %s signature for a different message", mname(mode), c.kind.c_str()); }
  report(g, c, want);
}
static void c05_mall_c(Gen& g) { c05_mall(g, COMPACT); }
static void c05_mall_f(Gen& g) { c05_mall(g, FULL); }
static void c05_trunc(Gen& g) {               // every stated length for an honest signature
  Mode mode = g.u(3) ? COMPACT : FULL; Bytes m, s; Key k;
  if (mode == FULL && !kIdeal) { k = pool_key(0); s = pool_full_sig(0, 0, &m); } else { k = pool_key(2); static std::map<int, Bytes> c; Bytes mm(1 + g.u(4) * 21, 0x31); if (!c.count(mm.size() * 2 + mode)) c[mm.size() * 2 + mode] = mode == FULL ? hyr_sign_full(k, mm, Bytes(32, 9)) : hyr_sign_compact(k, mm, Bytes(40, 9)); s = c[mm.size() * 2 + mode]; m = mm; }
  static const long near[] = {-1, 1, -2, 2, -32, 32, 64, -64}; size_t L = s.size(); uint64_t nl; unsigned w = g.u(4);
  if (w == 0) nl = L + near[g.u(8)]; else if (w == 1) nl = g.u(L); else if (w == 2) nl = xlen(mode) + g.u(67); else nl = L - 1 - g.u(std::min<size_t>(L, 140));
  if (nl == L) nl++;
  Bytes t = s; t.resize(nl, (uint8_t)g.u(256)); if (nl < L && g.u(3) == 0 && nl > 2) t[1] = (uint8_t)(nl - xlen(mode));
  OpenRes o = lib_open(mode, t, k.pk); CHECK(o.rc != 0, "%s open accepts a signature resized from %zu to %llu bytes", mname(mode), L, (ull)nl);
  CHECK(lib_verify(mode, m, t, k.pk) != 0, "%s verify accepts a signature resized from %zu to %llu bytes", mname(mode), L, (ull)nl);
  g.label(nl < L ? "truncated" : "extended"); g.nontrivial(hash64(t)); g.desc("%s: %zu -> %llu bytes", mname(mode), L, (ull)nl);
}

// ------------------------------------------------------------------------------------------ C06
static void c06(Gen& g, Mode mode) {
  Key k = gen_key(g); size_t n = 1 + g.sweep(64); Bytes m = g.bytes(n), rb = g.bytes(mode == FULL ? 32 : 40);
  rng_seed(g.u64()); rng_queue(rb);
  SignRes s = lib_sign(mode, m, k.sk); CHECK(s.rc == 0, "%s signing failed with %d", mname(mode), s.rc);
  // the random bytes actually used: the nonce is carried by the signature, the randomiser is found in what was drawn
  Bytes r(rb.size(), 0);
  if (mode == COMPACT) { if (s.sm.size() == COMPX + n) r.assign(s.sm.begin() + 66 + DILS, s.sm.begin() + 66 + DILS + NONCE); }
  else { const Bytes& sv = rng_env.served; bool found = sv.size() >= 32; if (found) r.assign(sv.begin(), sv.begin() + 32);
    if (!kIdeal) { found = false; for (size_t w = 0; w + 32 <= sv.size() && !found; w++) { uint8_t R[32]; ref::spx::message_random(k.sk.data() + SK_SPX, sv.data() + w, m.data(), n, R); if (s.sm.size() == FULLX + n && !memcmp(R, s.sm.data() + 66 + n + DILS, 32)) { r.assign(sv.begin() + w, sv.begin() + w + 32); found = true; } } }
    CHECK(found, "full signature's SPHINCS+ randomiser is not derived from 32 random bytes drawn during the call"); }
  Bytes want = mode == FULL ? hyr_sign_full(k, m, r) : hyr_sign_compact(k, m, r);
  CHECK(s.smlen == want.size(), "%s signature length %llu, documented %zu", mname(mode), (ull)s.smlen, want.size());
  if (s.sm != want) { size_t i = 0; while (s.sm[i] == want[i]) i++; failf("%s signature of a %zu-byte message differs from the documented layout/algorithms at offset %zu (%02x instead of %02x)", mname(mode), n, i, s.sm[i], want[i]); }
  OpenRes o = lib_open(mode, want, k.pk); CHECK(o.rc == 0 && o.mlen == n && !memcmp(o.m.data(), m.data(), n), "%s open rejects a signature made by the reference (%d)", mname(mode), o.rc);
  g.label(strf("mlen/16=%zu", n / 16)); g.nontrivial(hash64(want)); g.desc("%s: %zu-byte message %s, random bytes %s -> signature %s", mname(mode), n, hex(m, 8).c_str(), hex(r, 8).c_str(), hex(want, 10).c_str());
}
static void c06_c(Gen& g) { c06(g, COMPACT); }
static void c06_f(Gen& g) { c06(g, FULL); }
static void c06_interop(Gen& g) {            // reference-made signatures with any nonce/randomiser are accepted
  Mode mode = kIdeal && g.u(2) ? FULL : COMPACT; Key k = gen_key(g); Bytes m = g.bytes(1 + g.sweep(64)); Bytes s;
  if (mode == FULL) s = hyr_sign_full(k, m, g.bytes(32));
  else if (!kIdeal && g.u(3) == 0) {  // odd but valid component signatures: chosen Ed25519 nonce, other Dilithium masks
    Bytes nonce = g.bytes(40), d = hyr_digest(nonce.data(), m.data(), m.size(), k.pk.data() + PK_SPX), e(64), q(DILS); Bytes r = g.bytes(32); ref::ed_sign_with_r(k.sk.data(), d.data(), 64, r.data(), e.data());
    ref::dil::SignOpts so; Bytes rp = g.bytes(64); so.rhoprime = rp.data(); if (!ref::dil::sign(k.sk.data() + SK_DIL, d.data(), 64, q.data(), so)) q = dil_sig(k, d);
    s = join_compact(m, e, q, nonce);
  } else s = hyr_sign_compact(k, m, g.bytes(40));
  Cand c; c.mode = mode; c.sm = s; c.pk = k.pk; c.m = m; c.kind = "reference-made"; bool w = judge(g, c); CHECK(w, "harness: reference rejects its own signature"); report(g, c, w);
}

// ------------------------------------------------------------------------------------------ C12
static uint64_t odd_len(Gen& g, uint64_t valid) {
  static const uint64_t base[] = {0, 65, 66, 127, 128, 255, 256, 257, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 0xffffffffffffffc0ULL, 0xffffffffffffffbeULL};
  switch (g.u(6)) {
    case 0: case 1: return base[g.u(sizeof base / 8)];
    case 2: return valid + (1ULL << (8 + g.u(56)));                       // equal modulo 2^k
    case 3: return 0 - (uint64_t)(1 + g.u(200));
    case 4: return (g.u(0xffffffff) << 32) + valid + (1ULL << 32);
    default: return 65 + g.u64() % 0xfffffffffffff000ULL;
  }
}
static void c12(Gen& g) {
  unsigned op = g.sweep(8); Mode mode = op & 1 ? COMPACT : FULL; Key k; Bytes m, s;
  if (!kIdeal) { k = pool_key(0); static std::map<int, std::pair<Bytes, Bytes>> cc; unsigned i = g.u(3); if (mode == FULL) s = pool_full_sig(0, i, &m); else { auto& e = cc[i]; if (e.first.empty()) { e.second.assign(i == 0 ? 1 : i == 1 ? 64 : 29, 0x42); e.first = hyr_sign_compact(k, e.second, Bytes(40, i)); } s = e.first; m = e.second; } }
  else { k = gen_key(g); m = gen_msg(g); s = mode == FULL ? hyr_sign_full(k, m, g.bytes(32)) : hyr_sign_compact(k, m, g.bytes(40)); }
  uint64_t smark = 0xD7D7D7D7D7D7D7D7ULL; int rc = 0; std::string what; const char* fn = "";
  size_t cap = xlen(mode) + 64; rng_seed(g.u64());
  if (op < 2) {        // sign
    unsigned nul = g.u(16); bool badlen = nul == 0 || g.u(2); uint64_t mlen = badlen ? odd_len(g, m.size()) : m.size();
    GBuf sm(cap), sl(8), mm(m), sk(k.sk); memcpy(sl.p, &smark, 8);
    rc = (mode == FULL ? crypto_sign_dilithium_ed25519_sphincs : crypto_sign_compact_dilithium_ed25519_sphincs)(nul & 1 ? nullptr : sm.p, nul & 2 ? nullptr : (ull*)sl.p, nul & 4 ? nullptr : mm.p, mlen, nul & 8 ? nullptr : sk.p);
    CHECK(rc != 0, "%s sign succeeds with null mask %u and message length %llu", mname(mode), nul, (ull)mlen); CHECK(sm.all(0xA5) && !memcmp(sl.p, &smark, 8), "%s sign wrote output although it refused (null mask %u, length %llu)", mname(mode), nul, (ull)mlen); sm.check("signature");
    what = strf("sign null=%u mlen=%llu", nul, (ull)mlen); fn = "sign";
  } else if (op < 4) { // open
    unsigned nul = g.u(16), bad = nul == 0 ? 1 + g.u(3) : g.u(4); uint64_t sl = s.size(); Bytes t = s;
    if (bad == 1) { sl = g.u(3) == 0 ? g.u(xlen(mode) + 1) : odd_len(g, s.size()); if (sl >= xlen(mode) + 1 && sl <= xlen(mode) + 64) sl += 64; }
    if (bad == 2) { t[1] = g.u(256); if (t[1] == m.size()) t[1] = g.u(2) ? 0 : 65; }
    if (bad == 3) { size_t d = g.u(64); long nl = (long)xlen(mode) + 1 + d; if (nl == (long)s.size()) nl = nl == (long)xlen(mode) + 64 ? nl - 1 : nl + 1; t.resize(nl, 0x77); sl = nl; }
    GBuf mm(64), ml(8), sm(t), pk(k.pk); memcpy(ml.p, &smark, 8);
    if (sl < t.size()) { t.resize(sl); sm = GBuf(t); }
    rc = (mode == FULL ? crypto_sign_dilithium_ed25519_sphincs_open : crypto_sign_compact_dilithium_ed25519_sphincs_open)(nul & 1 ? nullptr : mm.p, nul & 2 ? nullptr : (ull*)ml.p, nul & 4 ? nullptr : sm.p, sl, nul & 8 ? nullptr : pk.p);
    CHECK(rc != 0, "%s open succeeds with null mask %u and stated length %llu (honest length %zu)", mname(mode), nul, (ull)sl, s.size()); CHECK(mm.all(0xA5) && !memcmp(ml.p, &smark, 8), "%s open wrote output although it refused", mname(mode)); mm.check("message");
    what = strf("open null=%u bad=%u smlen=%llu", nul, bad, (ull)sl); fn = "open";
  } else if (op < 6) { // verify
    unsigned nul = g.u(8), bad = nul == 0 ? 1 + g.u(4) : g.u(5); uint64_t sl = s.size(), mlen = m.size(); Bytes t = s;
    if (bad == 1) { sl = g.u(3) == 0 ? g.u(xlen(mode) + 1) : odd_len(g, s.size()); if (sl >= xlen(mode) + 1 && sl <= xlen(mode) + 64) sl += 64; }
    if (bad == 2) { t[1] = g.u(256); if (t[1] == m.size()) t[1] = g.u(2) ? 0 : 65; }
    if (bad == 3) mlen = odd_len(g, m.size());
    if (bad == 4) { t[1] = 0; t.resize(xlen(mode)); sl = t.size(); mlen = 0; }
    if (sl < t.size()) t.resize(sl);
    GBuf mm(m), sm(t), pk(k.pk);
    rc = (mode == FULL ? crypto_verify_dilithium_ed25519_sphincs : crypto_verify_compact_dilithium_ed25519_sphincs)(nul & 1 ? nullptr : mm.p, mlen, nul & 2 ? nullptr : sm.p, sl, nul & 4 ? nullptr : pk.p);
    CHECK(rc != 0, "%s verify succeeds with null mask %u, message length %llu, signature length %llu", mname(mode), nul, (ull)mlen, (ull)sl);
    what = strf("verify null=%u bad=%u mlen=%llu smlen=%llu", nul, bad, (ull)mlen, (ull)sl); fn = "verify";
  } else if (op == 6) { // key generation and seed expander
    unsigned which = g.u(3), nul = 1 + g.u(which == 0 ? 7 : 3); Bytes seed = g.bytes(160); GBuf pk(PKB), sk(SKB), sd(seed), ex(160);
    if (which == 0) rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed(nul & 1 ? nullptr : pk.p, nul & 2 ? nullptr : sk.p, nul & 4 ? nullptr : sd.p);
    else if (which == 1) rc = crypto_sign_dilithium_ed25519_sphincs_keypair(nul & 1 ? nullptr : pk.p, nul & 2 ? nullptr : sk.p);
    else rc = crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(nul & 1 ? nullptr : sd.p, nul & 2 ? nullptr : ex.p);
    CHECK(rc != 0, "key generation/expansion %u succeeds with null mask %u", which, nul); CHECK(pk.all(0xA5) && sk.all(0xA5) && ex.all(0xA5), "key generation/expansion %u wrote output although it refused (null mask %u)", which, nul);
    what = strf("keygen %u null=%u", which, nul); fn = "keygen";
  } else {              // standalone Dilithium check and seed expander utility
    if (g.u(2)) {
      unsigned nul = g.u(8); uint64_t mlen = nul && g.u(2) ? 29 : odd_len(g, 29), sl = DILS; static Bytes mm0(29, 0x42), dsig; static Key kk = pool_key(0); if (dsig.empty()) dsig = dil_sig(kk, mm0); GBuf mm(mm0), sm(dsig), pk(kk.pk.data() + PK_DIL, 1312);
      rc = crypto_verify_dilithium(nul & 1 ? nullptr : mm.p, mlen, nul & 2 ? nullptr : sm.p, sl, nul & 4 ? nullptr : pk.p); CHECK(rc != 0, "standalone Dilithium verify succeeds with null mask %u, message length %llu", nul, (ull)mlen); what = strf("verify_dilithium null=%u mlen=%llu", nul, (ull)mlen); fn = "verify_dilithium";
    } else {
      unsigned nul = g.u(4); size_t slen = g.u(80), olen = g.u(200); if (nul == 0 && slen >= 32 && olen > slen) { if (g.u(2)) slen = g.u(32); else olen = g.u(slen + 1); }
      Bytes sd = g.bytes(slen); GBuf s2(sd), out(olen); rc = seedexpander_wrapper(nul & 1 ? nullptr : s2.p, slen, nul & 2 ? nullptr : out.p, olen);
      CHECK(rc != 0, "seed expander accepts null mask %u, seed length %zu, output length %zu", nul, slen, olen); CHECK(out.all(0xA5), "seed expander wrote output although it refused"); out.check("output"); what = strf("seedexpander null=%u %zu->%zu", nul, slen, olen); fn = "seedexpander";
    }
  }
  g.label(fn); g.nontrivial(hash64(what, op)); g.desc("%s %s -> %d", mname(mode), what.c_str(), rc);
}
// every message length value at the boundary, every stated signature length near the valid range
static void c12_sweep(Gen& g) {
  Mode mode = g.sweep(2) ? COMPACT : FULL; unsigned i = g.sweep(400); Key k = pool_key(0); Bytes m(200, 0x55);
  if (i < 136) {   // message lengths 65..200 and 2^32 multiples
    uint64_t ml = i < 68 ? 65 + i : ((uint64_t)(1 + i % 3) << 32) + (i - 68); GBuf mm(m), sk(k.sk), sm(xlen(mode) + 300), sl(8); memset(sl.p, 0xD7, 8); rng_seed(1);
    int rc = (mode == FULL ? crypto_sign_dilithium_ed25519_sphincs : crypto_sign_compact_dilithium_ed25519_sphincs)(sm, (ull*)sl.p, mm, ml, sk); CHECK(rc != 0 && sm.all(0xA5) && sl.all(0xD7), "%s sign accepts message length %llu or writes output", mname(mode), (ull)ml); g.desc("%s sign mlen=%llu", mname(mode), (ull)ml);
  } else {         // stated signature length from 60 below to 200 above the minimum, content all of one kind, length byte consistent modulo 256
    long d = (long)(i - 136) - 60; uint64_t sl = xlen(mode) + 1 + d; if (d >= 0 && d < 64) { sl += 1ULL << 32; } Bytes t((size_t)(sl & 0xffffffff), 0x11); t[0] = mode == FULL ? 2 : 1; t[1] = (uint8_t)((sl & 0xffffffff) - xlen(mode)); GBuf s(t), pk(k.pk), mm(64), ml(8); memset(ml.p, 0xD7, 8);
    int rc = (mode == FULL ? crypto_sign_dilithium_ed25519_sphincs_open : crypto_sign_compact_dilithium_ed25519_sphincs_open)(mm, (ull*)ml.p, s, sl, pk); CHECK(rc != 0 && mm.all(0xA5) && ml.all(0xD7), "%s open accepts or writes output for stated length %llu", mname(mode), (ull)sl); g.desc("%s open smlen=%llu", mname(mode), (ull)sl);
  }
  g.nontrivial(i * 2 + mode);
}

// ------------------------------------------------------------------------------------------ C14
static void c14(Gen& g) {
  Mode mode = g.u(kIdeal ? 2 : 6) == 1 ? FULL : COMPACT; Cand c = gen_cand(g, mode); Mode use = g.u(8) == 7 ? (mode == FULL ? COMPACT : FULL) : mode;
  bool left = g.u(2); uint8_t fill = (uint8_t)g.u(256); GBuf s(c.sm, true, left), p(c.pk, true, left), m(64, fill, left), ml(8); uint64_t mark = g.u64(); memcpy(ml.p, &mark, 8);
  int rc = (use == FULL ? crypto_sign_dilithium_ed25519_sphincs_open : crypto_sign_compact_dilithium_ed25519_sphincs_open)(m, (ull*)ml.p, s, c.sm.size(), p);
  m.check("message"); uint64_t after; memcpy(&after, ml.p, 8);
  if (rc != 0) { CHECK(m.all(fill), "%s open failed (%d, %s) but changed the message buffer", mname(use), rc, c.kind.c_str()); CHECK(after == mark, "%s open failed (%d, %s) but changed the message length", mname(use), rc, c.kind.c_str()); g.nontrivial(hash64(c.sm, hash64(c.pk))); }
  g.label(std::string(rc ? "rejected " : "accepted ") + mname(use)); g.desc("%s open of %s %s -> %d, buffers untouched", mname(use), mname(mode), c.kind.c_str(), rc);
}

// ------------------------------------------------------------------------------------------ C15
static void c15(Gen& g) {
  Mode mode = g.u(kIdeal ? 2 : 6) == 1 ? FULL : COMPACT; Cand c = gen_cand(g, mode); Mode use = g.u(6) == 5 ? (mode == FULL ? COMPACT : FULL) : mode;
  OpenRes o = lib_open(use, c.sm, c.pk); Bytes om(o.m.begin(), o.m.begin() + (o.rc == 0 && o.mlen <= 64 ? o.mlen : 0));
  if (o.rc == 0) CHECK(o.mlen >= 1 && o.mlen <= 64, "open succeeded with message length %llu", (ull)o.mlen);
  Bytes mm = o.rc == 0 && g.u(2) ? om : c.m; std::string h; unsigned w = g.u(8);
  if (w == 1) mm = damage(g, mm, &h); else if (w == 2) mm.push_back(g.u(2) ? 0 : g.u(256)); else if (w == 3 && mm.size() > 1) mm.pop_back(); else if (w == 4) mm = gen_msg(g); else if (w == 5 && mm.size() > 1) { size_t p = g.u(mm.size()); mm[p] ^= 1u << g.u(8); } else if (w == 6) mm.back() ^= 1;
  if (mm.empty() || mm.size() > 64) mm.assign(1, 7);
  int v = lib_verify(use, mm, c.sm, c.pk); bool want = o.rc == 0 && om == mm;
  CHECK((v == 0) == want, "%s verify returned %d while open returned %d and the messages %s (%s)", mname(use), v, o.rc, om == mm ? "agree" : "differ", c.kind.c_str());
  g.label(strf("%s verify=%d open=%d", mname(use), v == 0, o.rc == 0)); g.nontrivial(hash64(c.sm, hash64(c.pk, hash64(mm)))); g.desc("%s %s, %zu-byte message -> verify %d, open %d", mname(use), c.kind.c_str(), mm.size(), v, o.rc);
}
static void c15_modes(Gen& g) {      // the two formats never mix, even with the identifier and length rewritten
  Key k; Bytes m, f, c; static std::map<int, std::pair<Bytes, Bytes>> cc;
  if (!kIdeal) { unsigned i = g.u(3); k = pool_key(0); f = pool_full_sig(0, i, &m); auto& e = cc[i]; if (e.first.empty()) { e.first = hyr_sign_compact(k, m, Bytes(40, 3)); } c = e.first; } else { k = gen_key(g); m = gen_msg(g); f = hyr_sign_full(k, m, g.bytes(32)); c = hyr_sign_compact(k, m, g.bytes(40)); }
  Bytes t; Mode use; unsigned w = g.sweep(6); const char* what;
  switch (w) {
    case 0: t = f; use = COMPACT; what = "full as compact"; break;
    case 1: t = c; use = FULL; what = "compact as full"; break;
    case 2: t = f; t[0] = 1; use = COMPACT; what = "full relabelled"; break;
    case 3: t = c; t[0] = 2; use = FULL; what = "compact relabelled"; break;
    case 4: { t = f; t[0] = 1; t.resize(COMPX + m.size()); use = COMPACT; what = "full cut to compact size"; break; }
    default: { t = c; if (g.u(2)) t[0] = 2; t.resize(FULLX + m.size(), (uint8_t)g.u(256)); use = FULL; what = "compact stretched to full size"; }
  }
  uint64_t sl = t.size(); OpenRes o = lib_open(use, t, sl, k.pk); CHECK(o.rc != 0, "%s open accepts %s", mname(use), what); CHECK(lib_verify(use, m, t, k.pk) != 0, "%s verify accepts %s", mname(use), what);
  g.label(what); g.nontrivial(hash64(t, w)); g.desc("%s, %zu-byte message", what, m.size());
}
#ifndef IDEAL
static void c15_dil(Gen& g) {        // standalone Dilithium check
  Key k = gen_key(g); Bytes m = g.bytes(g.len(1, 64)), s; std::string h, kind; unsigned w = g.u(9); Bytes pk(k.pk.begin() + PK_DIL, k.pk.begin() + PK_SPX);
  s = dil_sig(k, m); Bytes mm = m; uint64_t sl = s.size(), ml;
  switch (w) { case 0: kind = "honest"; break; case 1: s = damage(g, s, &h); kind = "sig"; break; case 2: mm = damage(g, mm, &h); kind = "msg"; break; case 3: pk = damage(g, pk, &h); kind = "pk"; break; case 4: { unsigned q = g.u(5); if (q < 2) { s.resize(DILS - 1 - g.u(40)); } else { s.resize(DILS + 1 + g.u(60), (uint8_t)g.u(2)); } sl = s.size(); kind = "len"; break; } case 5: { Bytes x = craft_dil_hint(s, g.u(6), g.u(80), g.u(256)); if (!x.empty()) s = x; kind = "hint"; break; } case 6: { Bytes x = craft_dil_flipC(k, m, g.u(32), 1u << g.u(8)); if (!x.empty()) s = x; kind = "challenge"; break; } case 7: craft_dil_free(g, m, &pk, &s); kind = "edge"; break; default: mm = g.bytes(65 + g.u(100)); s = dil_sig(k, mm); kind = "long message"; }
  ml = mm.size(); GBuf a(mm), b(s), c(pk); int rc = crypto_verify_dilithium(a, ml, b, sl, c);
  bool want = ml >= 1 && ml <= 64 && sl == DILS && ref::dil::verify(pk.data(), mm.data(), mm.size(), s.data());
  CHECK((rc == 0) == want, "standalone Dilithium verify returned %d for a %s signature (%s)", rc, want ? "valid" : "invalid", kind.c_str());
  g.label(kind + (want ? " accepted" : " rejected")); g.nontrivial(hash64(s, hash64(mm, hash64(pk)))); g.desc("standalone dilithium: %s, %llu-byte message -> %d", kind.c_str(), (ull)ml, rc);
}
// C14 for the single schemes
static void c14_single(Gen& g) {
  unsigned sch = g.sweep(10) == 9 ? 2 : g.u(2); Key k = pool_key(g.u(2)); Bytes m = g.bytes(g.len(sch == 2 ? 1 : 0, 200)); uint8_t fill = 1 + g.u(254); for (auto& x : m) if (x == fill) x ^= 0x40; std::string h; int rc; bool touched; std::string kind; 
  Bytes sm; size_t siglen = sch == 0 ? 64 : sch == 1 ? DILS : SPXS;
  if (sch == 0) { sm.resize(64); ref::ed_sign(k.sk.data(), m.data(), m.size(), sm.data()); } else if (sch == 1) sm = dil_sig(k, m); else { static Bytes ms; Bytes f = pool_full_sig(0, 0, &ms); k = pool_key(0); sm = split_full(f).spx; m = ms; fill = 0; while (std::count(m.begin(), m.end(), fill)) fill++; }
  sm.insert(sm.end(), m.begin(), m.end()); Bytes pk = sch == 0 ? Bytes(k.pk.begin(), k.pk.begin() + 32) : sch == 1 ? Bytes(k.pk.begin() + PK_DIL, k.pk.begin() + PK_SPX) : Bytes(k.pk.begin() + PK_SPX, k.pk.end());
  switch (g.u(5)) { case 0: kind = "honest"; break; case 1: sm = damage(g, sm, &h); kind = "sig/msg"; break; case 2: pk = damage(g, pk, &h); kind = "pk"; break; case 3: { size_t nl = g.u(siglen); if (g.u(2)) nl = siglen - 1 - g.u(3); sm.resize(nl); kind = "short"; break; } default: { if (m.empty()) m.push_back(1), sm.push_back(1); sm[sm.size() - 1 - g.u(m.size())] ^= 1u << g.u(8); kind = "msg"; } }
  size_t n = sm.size(), area = n >= siglen ? n - siglen : 0;
  GBuf s(sm), p(pk), out(n, fill), ml(8); memset(ml.p, 0xD7, 8);
  if (sch == 0) rc = crypto_sign_ed25519_tweet_open(out, (ull*)ml.p, s, n, p); else if (sch == 1) rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(out, (size_t*)ml.p, s, n, p); else rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(out, (size_t*)ml.p, s, n, p);
  out.check("message"); const char* nm = sch == 0 ? "Ed25519" : sch == 1 ? "Dilithium" : "SPHINCS+";
  bool want = n >= siglen && (sch == 0 ? ref::ed_classify_point(pk.data()) != ref::ED_NONCANON_Y && ref::ed_verify(pk.data(), sm.data() + 64, area, sm.data()) : sch == 1 ? ref::dil::verify(pk.data(), sm.data() + DILS, area, sm.data()) : ref::spx::verify(pk.data(), sm.data() + SPXS, area, sm.data(), SPXS));
  if (sch == 0 && ref::ed_classify_point(pk.data()) == ref::ED_NONCANON_Y) g.discard();
  CHECK((rc == 0) == want, "%s open returned %d for a %s input (%s)", nm, rc, want ? "valid" : "invalid", kind.c_str());
  touched = false; for (size_t i = 0; i < area; i++) if (out.p[i] != fill && out.p[i] != 0) touched = true;
  if (rc) { CHECK(!touched, "%s open failed but delivered bytes of the unverified message (%s)", nm, kind.c_str()); g.nontrivial(hash64(sm, hash64(pk))); }
  else { uint64_t l; memcpy(&l, ml.p, 8); CHECK(l == area && !memcmp(out.p, sm.data() + siglen, area), "%s open returned the wrong message", nm); }
  g.label(std::string(nm) + (rc ? " rejected" : " accepted")); g.desc("%s open %s, %zu bytes -> %d", nm, kind.c_str(), n, rc);
}
#endif

REGISTER {
#ifndef IDEAL
  reg("C01", "roundtrip", c01).on("rel", 256, 12000).on("asan", 16, 400);
  reg("C02", "roundtrip", c02).on("rel", 3000, 200000).on("asan", 160, 8000).guided("cov", 1280, 100000);
  reg("C03", "parts", c03_parts).on("rel", 2000, 60000);
  reg("C03", "altered", c03_altered).on("rel", 2400, 60000);
  reg("C03", "spliced", spliced_f).guided("cov", 640, 20000);
  reg("C03", "root", c03_root).on("rel", 32, 256);
  reg("C04", "parts", c04_parts).on("rel", 5000, 300000).guided("cov", 1600, 60000);
  reg("C04", "altered", c04_altered).on("rel", 5000, 200000);
  reg("C04", "spliced", spliced_c).guided("cov", 3200, 60000);
  reg("C05", "flip-compact", c05_flip_c).on("rel", 8000, 160000);
  reg("C05", "flip-full", c05_flip_f).on("rel", 5400, 90000);
  reg("C05", "malleability-compact", c05_mall_c).on("rel", 5000, 200000);
  reg("C05", "spliced", spliced_c).guided("cov", 3200, 60000);
  reg("C05", "malleability-full", c05_mall_f).on("rel", 1600, 40000);
  reg("C05", "message-compact", c05_msg_c).on("rel", 128, 8000);
  reg("C05", "message-full", c05_msg_f).on("rel", 64, 2000);
  reg("C05", "resize", c05_trunc).on("rel", 3000, 40000);
  reg("C06", "compact", c06_c).on("rel", 4000, 200000).guided("cov", 1280, 60000);
  reg("C06", "full", c06_f).on("rel", 128, 8000);
  reg("C06", "interop", c06_interop).on("rel", 3000, 100000);
  reg("C12", "args", c12).on("rel", 40000, 400000).on("asan", 4000, 40000);
  reg("C12", "lengths", c12_sweep).on("rel", 800, 800).on("asan", 800, 800);
  reg("C14", "hybrid", c14).on("rel", 6000, 200000).on("asan", 200, 8000);
  reg("C14", "single", c14_single).on("rel", 7000, 200000);
  reg("C15", "verify-open", c15).on("rel", 5000, 200000).guided("cov", 2400, 60000);
  reg("C15", "message-compact", c05_msg_c).on("rel", 128, 8000);
  reg("C15", "modes", c15_modes).on("rel", 600, 6000);
  reg("C15", "dilithium", c15_dil).on("rel", 10000, 400000);
#else
  reg("C01", "roundtrip", c01).on("ideal", 24000, 400000).guided("ideal", 72000, 1500000);
  reg("C02", "roundtrip", c02).on("ideal", 24000, 400000).guided("ideal", 72000, 1500000);
  reg("C03", "parts", c03_parts).on("ideal", 24000, 400000).guided("ideal", 36000, 1000000);
  reg("C03", "altered", c03_altered).on("ideal", 24000, 400000).guided("ideal", 48000, 500000);
  reg("C04", "altered", c04_altered).on("ideal", 24000, 400000).guided("ideal", 48000, 500000);
  reg("C04", "parts", c04_parts).on("ideal", 24000, 400000).guided("ideal", 72000, 1000000);
  reg("C03", "spliced", spliced_f).guided("ideal", 48000, 500000);
  reg("C04", "spliced", spliced_c).guided("ideal", 48000, 500000);
  reg("C05", "spliced-full", spliced_f).guided("ideal", 48000, 500000);
  reg("C05", "spliced-compact", spliced_c).guided("ideal", 48000, 500000);
  reg("C05", "flip-full", c05_flip_f).on("ideal", 54000, 216000);
  reg("C05", "message-full", c05_msg_f).on("ideal", 512, 20000);
  reg("C05", "message-compact", c05_msg_c).on("ideal", 1024, 60000);
  reg("C05", "malleability-full", c05_mall_f).on("ideal", 16000, 200000).guided("ideal", 48000, 500000);
  reg("C05", "malleability-compact", c05_mall_c).on("ideal", 16000, 200000).guided("ideal", 48000, 500000);
  reg("C06", "compact", c06_c).on("ideal", 24000, 200000).guided("ideal", 48000, 500000);
  reg("C06", "full", c06_f).on("ideal", 24000, 200000).guided("ideal", 48000, 500000);
  reg("C06", "interop", c06_interop).on("ideal", 16000, 200000);
  reg("C12", "args", c12).on("ideal", 40000, 400000).guided("ideal", 72000, 500000);
  reg("C14", "hybrid", c14).on("ideal", 24000, 400000).guided("ideal", 72000, 500000);
  reg("C15", "verify-open", c15).on("ideal", 24000, 400000).guided("ideal", 72000, 500000);
  reg("C15", "message-full", c05_msg_f).on("ideal", 512, 20000);
  reg("C15", "message-compact", c05_msg_c).on("ideal", 1024, 60000);
  reg("C15", "modes", c15_modes).on("ideal", 6000, 60000);
#endif
};
