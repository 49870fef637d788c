// C13, C23, C26, C28: properties of every operation of the library, over the operation catalogue.
#include "ops.h"
#include <algorithm>
#include <atomic>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
static Bytes sl(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
static std::string show(const Call& c) { return strf("%s%s (key %s, message %zu bytes %s, signature %s)", op_name[c.op], op_forms(c.op) > 1 ? strf("/%u", c.form).c_str() : "", hex(c.key, 8).c_str(), c.msg.size(), hex(c.msg, 8).c_str(), hex(c.sig, 8).c_str()); }
static uint64_t call_hash(const Call& c) { return hash64(c.extra, hash64(c.sig, hash64(c.msg, hash64(c.key, mix64(c.op ^ c.rng ^ (uint64_t)c.form << 32))))); }
static void compare(const Call& c, const Out& o, const Out& w, const char* when) {
  CHECK((o.rc == 0) == (w.rc == 0), "%s: %s returned %d, the reference says %s", when, show(c).c_str(), o.rc, w.rc == 0 ? "success" : "failure");
  if (w.rc == 0) CHECK(o.data == w.data, "%s: %s returned wrong output bytes", when, show(c).c_str());
}

// ------------------------------------------------------------------------------------------ C13
static Bytes hostile(Gen& g, size_t n) { Bytes b = g.bytes(n); if (g.u(3) == 0 && n > 8) { unsigned k = 1 + g.u(30); for (unsigned i = 0; i < k; i++) { size_t p = g.u(n), l = std::min<size_t>(n - p, 1 + g.u(40)); memset(b.data() + p, g.u(2) ? 0xff : 0, l); } } return b; }
static bool dil_key_signable(const uint8_t* sk, const Bytes& m) { Bytes s(DILS); ref::dil::SignOpts o; o.max_attempts = 120; return ref::dil::sign(sk, m.data(), m.size(), s.data(), o); }
static void c13(Gen& g, bool heavy) {
  std::vector<OpId> ops = heavy ? std::vector<OpId>{OP_FSIGN, OP_SSIGN, OP_FOPEN, OP_FVERIFY, OP_SOPEN, OP_KEYSEED, OP_KEYRAND, OP_SKEY} : std::vector<OpId>();
  if (!heavy) for (OpId o : ops_all(false)) if (kIdeal || (o != OP_FOPEN && o != OP_FVERIFY && o != OP_SOPEN && o != OP_KEYSEED && o != OP_KEYRAND && o != OP_SKEY)) ops.push_back(o);
  Call c = gen_call(g, {ops[g.sweep(ops.size())]}); unsigned mode = g.u(4); size_t n = c.msg.size();
  bool signs = c.op == OP_CSIGN || c.op == OP_FSIGN || c.op == OP_DSIGN, dsk = false;
  if (mode) {                                                       // replace some arguments by arbitrary bytes of the same size
    if (!c.key.empty() && g.u(2)) {
      if (signs) {                                                  // parts of the secret key
        size_t d = c.op == OP_DSIGN ? 0 : SK_DIL; unsigned w = g.u(4);
        if (c.op != OP_DSIGN && w == 0) { Bytes e = hostile(g, 64); std::copy(e.begin(), e.end(), c.key.begin()); }
        else if (c.op != OP_DSIGN && w == 1) { Bytes e = hostile(g, SKB - SK_DILPK); std::copy(e.begin(), e.end(), c.key.begin() + SK_DILPK); }
        else { size_t a = w == 2 ? 0 : 96 + 768, l = w == 2 ? 96 : 1664; if (g.u(3) == 0) { a = 0; l = 2560; } Bytes e = hostile(g, l); std::copy(e.begin(), e.end(), c.key.begin() + d + a); dsk = true; }
      } else c.key = hostile(g, c.key.size());
    }
    if (!c.sig.empty() && g.u(2)) {
      Bytes h = hostile(g, c.sig.size()); bool hy = c.op == OP_COPEN || c.op == OP_CVERIFY || c.op == OP_FOPEN || c.op == OP_FVERIFY;
      if (g.u(2)) { size_t a = g.u(h.size()), l = std::min<size_t>(h.size() - a, 1 + g.u(300)); Bytes t = c.sig; std::copy(h.begin() + a, h.begin() + a + l, t.begin() + a); h = t; }
      if (hy && g.u(8)) { h[0] = c.sig[0]; h[1] = c.sig[1]; }
      // the end of a Dilithium signature is the hint encoding: positions and counters
      if (!kIdeal && g.u(3) == 0 && c.sig.size() >= DILS) { size_t off = c.op == OP_COPEN || c.op == OP_CVERIFY ? 66 : c.op == OP_FOPEN || c.op == OP_FVERIFY ? 66 + n : 0; if (c.op != OP_EOPEN && c.op != OP_SOPEN) for (int i = 0; i < 84; i++) if (g.u(2)) h[off + 2336 + i] = i < 80 ? g.u(256) : g.u(2) ? g.u(90) : g.u(256); }
      c.sig = h;
    }
    if (!c.sig.empty()) { g.splice(c.sig); g.splice(c.key); }
    if (n && g.u(3) == 0) { if (c.op == OP_BOX || c.op == OP_SECRETBOX) c.msg = hostile(g, n); else c.msg = hostile(g, n); }
  }
  if (dsk && !kIdeal) { Bytes d = c.op == OP_DSIGN ? c.key : sl(c.key, SK_DIL, 2560); Bytes m = c.msg; if (c.op == OP_CSIGN) { Bytes nn(40); Prng(mix64(c.rng ^ 0x726e67)).fill(nn.data(), 40); m = hyr_digest(nn.data(), m.data(), n, c.key.data() + SK_SPXPK); } if (!dil_key_signable(d.data(), m)) g.discard(); }
  rng_seed(c.rng); heap_env.track = true; Alloc a; a.guard = true; a.left = g.u(3) == 2; Out o = run_call(c, a);
  CHECK(!heap_env.freed_unknown, "%s: freed memory it did not allocate", show(c).c_str());
  CHECK(o.rc != -999, "harness: operation not run");
  g.label(std::string(op_name[c.op]) + (mode ? "/arbitrary" : "/honest")); g.nontrivial(call_hash(c)); g.desc("%s -> %d", show(c).c_str(), o.rc);
}
static void c13_light(Gen& g) { c13(g, false); }
static void c13_heavy(Gen& g) { c13(g, true); }
// truncated or odd-length inputs of the single-scheme open functions, with exactly sized buffers
static void c13_short(Gen& g) {
  unsigned w = g.sweep(13); bool left = g.u(2); int rc = 0; size_t n; GBuf l(8, 0xA5);
  if (w == 0) { n = g.len(0, 2600, {2419, 2420, 2421}); GBuf s(hostile(g, n), true, left), pk(hostile(g, 1312), true, left), m(n > 2420 ? n - 2420 : 0, 0xA5, left); GBuf m2(n, 0xA5, left); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open(n >= 2420 ? m.p : m2.p, (size_t*)l.p, s, n, pk); m.check("message"); m2.check("message"); CHECK(n >= 2420 || rc != 0, "short input accepted"); }
  else if (w == 1) { n = g.len(0, 2600, {2419, 2420, 2421}); size_t mn = g.len(0, 300); GBuf s(hostile(g, n), true, left), pk(hostile(g, 1312), true, left), m(hostile(g, mn), true, left); rc = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(s, n, m, mn, pk); CHECK(n == 2420 || rc != 0, "wrong length accepted"); }
  else if (w == 2) { n = g.len(0, 49000, {49855}); GBuf s(hostile(g, n), true, left), pk(hostile(g, 64), true, left), m(n, 0xA5, left); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_open(m, (size_t*)l.p, s, n, pk); m.check("message"); CHECK(rc != 0, "short input accepted"); }
  else if (w == 3) { n = g.len(0, 300, {63, 64, 65}); GBuf s(hostile(g, n), true, left), pk(hostile(g, 32), true, left), m(n, 0xA5, left); rc = crypto_sign_ed25519_tweet_open(m, (ull*)l.p, s, n, pk); m.check("message"); CHECK(n >= 64 || rc != 0, "short input accepted"); }
  else if (w == 4) { n = g.len(0, 300, {31, 32, 33}); GBuf c(hostile(g, n), true, left), nn(hostile(g, 24), true, left), k(hostile(g, 32), true, left), m(n, 0xA5, left); rc = crypto_secretbox_xsalsa20poly1305_tweet_open(m, c, n, nn, k); m.check("message"); CHECK(n >= 32 || rc != 0, "short input accepted"); }
  else if (w == 6) { n = g.len(0, 2600, {2419, 2420, 2421}); size_t mn = g.len(1, 64); GBuf s(hostile(g, n), true, left), pk(hostile(g, 1312), true, left), m(hostile(g, mn), true, left); rc = crypto_verify_dilithium(m, mn, s, n, pk); CHECK(n == 2420 || rc != 0, "wrong length accepted"); }
  else if (w == 7) { n = g.u(2) ? g.len(0, 49856, {49855}) : 49857 + g.u(64); size_t mn = g.len(0, 300); GBuf s(hostile(g, n), true, left), pk(hostile(g, 64), true, left), m(hostile(g, mn), true, left); if (n == 49856) g.discard(); rc = PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify(s, n, m, mn, pk); CHECK(rc != 0, "wrong length accepted"); }
  else if (w >= 8 && w <= 11) {   // hybrid signatures: every length, with plausible header bytes; the buffers hold exactly what is announced
    bool full = w >= 10, ver = w & 1; size_t over = full ? 52342 : 2526; unsigned a = g.u(3); int d = (int)g.u(5) - 2; n = a == 0 ? g.len(0, over) : over + 1 + g.u(64) + (a == 2 ? d : 0); Bytes b = hostile(g, n); size_t ml = n > over ? n - over : 1;
    if (n > 0 && g.u(8)) b[0] = full ? 2 : 1; if (n > 1) { unsigned q = g.u(4); b[1] = q == 0 ? g.u(256) : q == 1 ? 1 + g.u(64) : q == 2 ? (uint8_t)(ml + g.u(5) - 2) : (uint8_t)ml; }
    size_t mn = g.len(1, 64); GBuf s(b, true, left), pk(hostile(g, 1408), true, left), m(ver ? mn : ml, 0xA5, left);
    if (ver) rc = (full ? crypto_verify_dilithium_ed25519_sphincs : crypto_verify_compact_dilithium_ed25519_sphincs)(m, mn, s, n, pk); else rc = (full ? crypto_sign_dilithium_ed25519_sphincs_open : crypto_sign_compact_dilithium_ed25519_sphincs_open)(m, (ull*)l.p, s, n, pk);
    m.check("message");
  }
  else if (w == 12) {               // seed expander wrapper: short seeds, small outputs
    n = g.len(0, 200, {31, 32, 33}); size_t on = g.len(0, 300, {n, n + 1}); GBuf s(hostile(g, n), true, left), o(on, 0xA5, left); rc = seedexpander_wrapper(s, n, o, on); o.check("output");
  }
  else { n = g.len(0, 300, {31, 32, 33}); GBuf c(hostile(g, n), true, left), nn(hostile(g, 24), true, left), pk(hostile(g, 32), true, left), sk(hostile(g, 32), true, left), m(n, 0xA5, left); rc = crypto_box_curve25519xsalsa20poly1305_tweet_open(m, c, n, nn, pk, sk); m.check("message"); CHECK(n >= 32 || rc != 0, "short input accepted"); }
  l.check("length"); g.label(strf("short%u", w)); g.nontrivial(mix64(n * 8 + w) ^ mix64(rc + left * 77)); g.desc("open/verify %u with %zu bytes -> %d", w, n, rc);
}

// ------------------------------------------------------------------------------------------ C23
static uint8_t* arena() { static uint8_t* a = (uint8_t*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return a; }
// one argument changed in one bit: what a cache keyed on part of the arguments confuses
static Call vary(Gen& g, Call c) {
  struct R { Bytes* f; size_t lo, hi; }; std::vector<R> rs; auto add = [&](Bytes& f, size_t lo, size_t hi) { if (hi > lo && hi <= f.size()) rs.push_back({&f, lo, hi}); };
  add(c.msg, c.op == OP_BOX || c.op == OP_SECRETBOX ? c.form & 1 ? 16 : 32 : 0, c.msg.size()); add(c.sig, 0, c.sig.size());
  switch (c.op) {
    case OP_DSIGN: add(c.key, 0, 128); add(c.key, 0, 32); break;                                    // seeds and hash of the secret key; any value is well formed
    case OP_CSIGN: case OP_FSIGN: if (!kIdeal) { add(c.key, SK_DIL, SK_DIL + 128); add(c.key, SK_DIL, SK_DIL + 32); } add(c.key, SK_SPX, SK_SPX + 128); break;
    default: add(c.key, 0, c.key.size()); if (c.key.size() == PKB) { add(c.key, 0, 32); add(c.key, PK_SPX, PKB); }
  }
  if (c.op == OP_BOX || c.op == OP_SECRETBOX || c.op == OP_STREAM) add(c.extra, 0, c.extra.size());
  if (rs.empty()) return c;
  R r = rs[g.u(rs.size())]; size_t n = r.hi - r.lo, i; switch (g.u(6)) { case 0: i = g.u(n); break; case 1: i = n - 1 - g.u(std::min<size_t>(n, 8)); break; case 3: i = n - 1; break; case 4: i = g.u(2) ? 0 : n / 2 - (g.u(2) && n > 1); break; case 2: i = n / 2 + g.u(n - n / 2); break; default: i = n - 1 - g.u(std::min<size_t>(n, 1 + g.u(2000))); }
  (*r.f)[r.lo + i] ^= 1u << (g.u(4) == 0 ? 7 : g.u(8)); return c;
}
static void c23_history(Gen& g) {
  bool heavy = kIdeal || g.u(12) == 0; unsigned n = kIdeal ? 2 + g.u(30) : 2 + g.u(heavy ? 5 : 14); uint64_t h = 0; std::string t;
  std::vector<OpId> ops = ops_all(heavy); std::vector<Call> hist;
  // most histories repeat operations on the same buffers, so state left behind by one call meets the next
  std::vector<OpId> few; unsigned nf = 1 + g.u(4); for (unsigned i = 0; i < nf; i++) few.push_back(ops[g.u(ops.size())]);
  for (unsigned i = 0; i < n; i++) {
    Call c;
    if (!hist.empty() && g.u(3) == 0) { c = hist[g.u(hist.size())]; if (g.u(2)) c.rng = g.u64(); }            // an earlier call again
    else if (!hist.empty() && g.u(3) == 0) {                                                                 // a near variant of an earlier call
      c = vary(g, g.u(3) ? hist.back() : hist[g.u(hist.size())]);
    } else c = gen_call(g, g.u(3) ? few : ops);
    rng_seed(c.rng); Alloc a; a.base = arena(); a.cap = 1 << 20; a.fill = g.u(2) ? 0xA5 : 0; bool fault = op_draws(c.op) && g.u(5) == 0; if (fault) rng_env.plan.push_back({RNG_ERR, 0, 5});
    Out o = run_call(c, a); bool delivered = fault && !rng_env.log.empty();
    if (delivered) { t += strf("%s! ", op_name[c.op]); h = mix64(h ^ call_hash(c) ^ 99); continue; }
    Out w = expect_call(c); compare(c, o, w, strf("call %u of the history [%s]", i + 1, t.substr(0, 400).c_str()).c_str());
    hist.push_back(c); t += strf("%s%s ", op_name[c.op], w.rc ? "-" : ""); h = mix64(h ^ call_hash(c));
  }
  g.nontrivial(h); g.label(strf("length %u-%u", n / 5 * 5, n / 5 * 5 + 4)); g.desc("%s", t.substr(0, 300).c_str());
}
// one operation, calls that differ from the one before in a single bit of an argument: what a cache with an incomplete key answers wrongly
static void c23_near(Gen& g) {
  std::vector<OpId> ops; for (OpId o : ops_all(false)) if (kIdeal || (o != OP_KEYRAND && o != OP_SKEY && o != OP_FOPEN && o != OP_FVERIFY && o != OP_RANDOM && o != OP_DKEY && o != OP_EKEY && o != OP_BKEY)) ops.push_back(o);
  if (!kIdeal) for (int i = 0; i < 2; i++) for (OpId o : {OP_EOPEN, OP_DOPEN, OP_VDIL, OP_COPEN, OP_CVERIFY, OP_ESIGN, OP_BOX, OP_X25519}) ops.push_back(o);
  Call c = gen_call(g, {ops[g.sweep(ops.size())]}); Call first = c; unsigned n = 2 + g.u(3); std::string t; uint64_t h = 0;
  for (unsigned i = 0; i < n; i++) {
    if (i) { c = g.u(3) ? vary(g, g.u(2) ? first : c) : first; if (g.u(3) == 0) c.rng = g.u64(); }
    rng_seed(c.rng); Alloc a; a.base = arena(); a.cap = 1 << 20; Out o = run_call(c, a), w = expect_call(c); compare(c, o, w, strf("call %u after near-identical calls [%s]", i + 1, t.c_str()).c_str()); t += strf("%s%s ", op_name[c.op], w.rc ? "-" : ""); h = mix64(h ^ call_hash(c));
  }
  g.label(op_name[c.op]); g.nontrivial(h); g.desc("%s", t.c_str());
}
struct TJob { const std::vector<Call>* calls; const std::vector<Out>* want; std::vector<unsigned> order; bool direct; pthread_barrier_t* bar; std::string err; unsigned reps; unsigned id; };
static void* tmain(void* p) {
  TJob* j = (TJob*)p; std::vector<uint8_t> mem(1 << 18); pthread_barrier_wait(j->bar);
  try {
    for (unsigned r = 0; r < j->reps && j->err.empty(); r++) for (unsigned i : j->order) {
      const Call& c = (*j->calls)[i]; const Out& w = (*j->want)[i]; rng_seed(c.rng); Alloc a; a.base = mem.data(); a.cap = mem.size(); a.direct = j->direct; Out o = run_call(c, a);
      compare(c, o, w, strf("thread %u", j->id).c_str());
    }
  } catch (const Failure& f) { j->err = f.msg; }
  return nullptr;
}
static void c23_threads_(Gen& g, bool spx) {
  std::vector<OpId> ops; bool heavy = kIdeal || (!spx && g.u(20) == 0); for (OpId o : ops_all(heavy)) ops.push_back(o); if (spx) ops = {OP_SSIGN, OP_FSIGN, OP_SOPEN, OP_SSIGN, OP_FOPEN, OP_FSIGN};
  unsigned nc = 1 + g.u(spx ? 2 : 5), T = 2 + g.u(spx ? 2 : 3); std::vector<Call> calls; std::vector<Out> want; std::string t; uint64_t h = 0;
  std::vector<OpId> few = {ops[g.sweep(ops.size())], ops[g.u(ops.size())], ops[g.u(ops.size())]};
  for (unsigned i = 0; i < nc; i++) { Call c = gen_call(g, i == 0 ? std::vector<OpId>{few[0]} : few); calls.push_back(c); want.push_back(expect_call(c)); t += std::string(op_name[c.op]) + " "; h = mix64(h ^ call_hash(c)); }
  pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, T); std::vector<TJob> jobs(T); std::vector<pthread_t> th(T); bool direct = g.u(2);
  for (unsigned i = 0; i < T; i++) { TJob& j = jobs[i]; j.calls = &calls; j.want = &want; j.bar = &bar; j.direct = direct; j.id = i; j.reps = kIdeal ? 3 : 1; for (unsigned k = 0; k < nc; k++) j.order.push_back(g.u(3) ? k : g.u(nc)); }
  for (unsigned i = 0; i < T; i++) if (pthread_create(&th[i], nullptr, tmain, &jobs[i])) failf("harness: pthread_create failed");
  for (unsigned i = 0; i < T; i++) pthread_join(th[i], nullptr);
  pthread_barrier_destroy(&bar);
  for (auto& j : jobs) CHECK(j.err.empty(), "%u threads running [%s]: %s", T, t.c_str(), j.err.c_str());
  g.label(strf("%u threads%s", T, direct ? ", shared inputs" : "")); g.label(op_name[calls[0].op]); g.nontrivial(mix64(h + T)); g.desc("%u threads: %s", T, t.c_str());
}
static void c23_threads(Gen& g) { c23_threads_(g, false); }
static void c23_threads_spx(Gen& g) { c23_threads_(g, true); }

// ------------------------------------------------------------------------------------------ C26
struct OomShm { int rc; uint64_t n; uint8_t done; uint64_t hash; long live; uint64_t allocs; uint8_t failed; };
struct OomArg { const Call* c; unsigned long at; OomShm* s; };
static void oom_child(void* p) {
  OomArg* a = (OomArg*)p; heap_env = HeapEnv(); heap_env.exit_ok = true; heap_env.fail_at = a->at; rng_seed(a->c->rng); Alloc al; Out o;
  try { o = run_call(*a->c, al); } catch (const Failure&) { _exit(55); }
  a->s->rc = o.rc; a->s->n = o.data.size(); a->s->hash = hash64(o.data); a->s->live = heap_env.live; a->s->failed = heap_env.failed; a->s->done = 1; _exit(0);
}
static void c26_oom(Gen& g) {
  static OomShm* s = (OomShm*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<OpId> ops = ops_all(g.u(10) == 0); Call c = gen_call(g, {ops[g.sweep(ops.size())]});
  rng_seed(c.rng); heap_env = HeapEnv(); Alloc al; Out o = run_call(c, al), w = expect_call(c); compare(c, o, w, "without faults");
  unsigned long N = heap_env.allocs; CHECK(heap_env.live == 0, "%s leaves %ld of %lu allocations unreleased (rc %d)", show(c).c_str(), heap_env.live, N, o.rc);
  if (!N) { g.label(strf("%s: no allocation", op_name[c.op])); g.discard(); }
  unsigned tries = N <= 12 ? N : 8; std::string t;
  for (unsigned k = 0; k < tries; k++) {
    unsigned long at = N <= 12 ? k + 1 : k < 2 ? N - g.u(std::min<unsigned long>(N, 12)) : k < 4 ? 1 + g.u(std::min<unsigned long>(N, 12)) : 1 + g.u(N);
    memset(s, 0, sizeof *s); OomArg a{&c, at, s}; int st = run_in_child(oom_child, &a, 60);
    CHECK(!WIFSIGNALED(st), "%s: failing allocation %lu of %lu ends in signal %d", show(c).c_str(), at, N, WTERMSIG(st));
    int ex = WEXITSTATUS(st);
    if (!s->done) { CHECK(ex != 0, "%s: failing allocation %lu of %lu ends the process with status 0", show(c).c_str(), at, N); CHECK(ex != 77 && ex != 78 && ex != 55, "%s: failing allocation %lu of %lu ends in a memory error (status %d)", show(c).c_str(), at, N, ex); t += strf("%lu:exit(%d) ", at, ex); g.label("process ended"); continue; }
    if (s->rc == 0) { CHECK(w.rc == 0 && s->n == w.data.size() && s->hash == hash64(w.data), "%s: with allocation %lu of %lu failing, success is reported with a wrong result", show(c).c_str(), at, N); g.label("correct result"); }
    else g.label("failure returned");
    CHECK(s->live == 0, "%s: with allocation %lu of %lu failing, %ld allocations are not released (rc %d)", show(c).c_str(), at, N, s->live, s->rc); t += strf("%lu:rc%d ", at, s->rc);
  }
  g.label(op_name[c.op]); g.nontrivial(call_hash(c)); g.desc("%s, %lu allocations: %s", show(c).c_str(), N, t.c_str());
}
static void c26_balance(Gen& g) {
  std::vector<OpId> ops = ops_all(kIdeal || g.u(30) == 0); unsigned n = 1 + g.u(8); uint64_t h = 0; std::string t;
  for (unsigned i = 0; i < n; i++) {
    Call c = gen_call(g, i == 0 ? std::vector<OpId>{ops[g.sweep(ops.size())]} : ops); rng_seed(c.rng); unsigned w = g.u(5); bool nullmsg = false;
    if (w == 0 && op_draws(c.op)) { rng_env.plan.push_back({RNG_ERR, 0, 5}); }
    if (w == 1 && (c.op == OP_CSIGN || c.op == OP_FSIGN)) c.msg = g.bytes(g.u(2) ? 0 : 65 + g.u(100));             // refused lengths
    if (w == 2 && c.sig.size() > 8 && (c.op == OP_COPEN || c.op == OP_FOPEN || c.op == OP_CVERIFY || c.op == OP_FVERIFY)) c.sig[g.u(2)] = g.u(256);
    heap_env = HeapEnv(); heap_env.track = true; heap_live.clear(); Alloc a; Out o = run_call(c, a); (void)nullmsg;
    CHECK(!heap_env.freed_unknown, "%s: freed memory twice or memory it did not allocate", show(c).c_str());
    CHECK(heap_env.live == 0 && heap_live.empty(), "%s (rc %d) leaves %ld of %lu allocations unreleased", show(c).c_str(), o.rc, heap_env.live, heap_env.allocs);
    t += strf("%s:%d(%lu) ", op_name[c.op], o.rc, heap_env.allocs); h = mix64(h ^ call_hash(c)); g.label(std::string(op_name[c.op]) + (o.rc ? "/failed" : "/ok"));
  }
  g.nontrivial(h); g.desc("%s", t.substr(0, 300).c_str());
}

// ------------------------------------------------------------------------------------------ C28
__attribute__((noinline)) static void dirty_stack(uint8_t v, unsigned mode, uint64_t seed) { volatile uint8_t b[300000]; Prng r(seed); if (mode == 0) for (size_t i = 0; i < sizeof b; i++) b[i] = v; else for (size_t i = 0; i + 8 <= sizeof b; i += 8) { uint64_t x = r.next(); memcpy((void*)(b + i), &x, 8); } __asm__ volatile("" ::"r"(b) : "memory"); }
static void c28_gen(Gen& g, Call& c, bool heavy) {
  std::vector<OpId> ops = heavy ? std::vector<OpId>{OP_FSIGN, OP_SSIGN} : ops_all(false); c = gen_call(g, {ops[g.sweep(ops.size())]});
}
static void c28_poison_(Gen& g, bool heavy) {
  Call c; c28_gen(g, c, heavy); uint8_t f[2] = {(uint8_t)g.u(256), 0}; f[1] = f[0] ^ (1 + g.u(255)); Out o[2]; unsigned mode = g.u(2); uint64_t ss = g.u64(); bool fault = op_draws(c.op) && g.u(6) == 0; bool reuse = g.u(2);
  for (int k = 0; k < 2; k++) { rng_seed(c.rng); if (fault) rng_env.plan.push_back({RNG_ERR, 0, 5}); heap_env.poison = f[k]; Alloc a; a.fill = f[k]; a.raw = true; a.guard = reuse; a.left = k; dirty_stack(f[k], mode, ss + k); o[k] = run_call(c, a); heap_env.poison = -1; }
  CHECK(o[0].rc == o[1].rc, "%s: the return code depends on prior memory contents (%d or %d)", show(c).c_str(), o[0].rc, o[1].rc);
  CHECK(o[0].data == o[1].data, "%s: the output depends on prior memory contents", show(c).c_str());
  for (size_t i = 0; i < o[0].raw.size(); i++) CHECK(o[0].raw[i] == o[1].raw[i] || (o[0].raw[i] == f[0] && o[1].raw[i] == f[1]), "%s (rc %d): output byte %zu depends on prior memory contents", show(c).c_str(), o[0].rc, i);
  g.label(std::string(op_name[c.op]) + (o[0].rc ? "/failed" : "/ok")); g.nontrivial(call_hash(c)); g.desc("%s with memory filled with %02x, then %02x -> %d", show(c).c_str(), f[0], f[1], o[0].rc);
}
static void c28_poison(Gen& g) { c28_poison_(g, false); }
static void c28_poison_h(Gen& g) { c28_poison_(g, true); }
static void c28_builds_(Gen& g, bool heavy) {
  Call c; c28_gen(g, c, heavy); rng_seed(c.rng); Alloc a; a.raw = true; Out o = run_call(c, a), w = expect_call(c); compare(c, o, w, "in this build");
  g.digest(&o.rc, sizeof o.rc); g.digest(o.raw.data(), o.raw.size()); g.label(std::string(op_name[c.op]) + (o.rc ? "/failed" : "/ok")); g.nontrivial(call_hash(c)); g.desc("%s -> %d", show(c).c_str(), o.rc);
}
static void c28_builds(Gen& g) { c28_builds_(g, false); }
static void c28_builds_h(Gen& g) { c28_builds_(g, true); }
static void c28_uninit(Gen& g) {            // run under the uninitialised-use detector; outputs are checked in run_call
  bool heavy = g.u(60) == 0; Call c; c28_gen(g, c, heavy); rng_seed(c.rng); if (op_draws(c.op) && g.u(8) == 0) rng_env.plan.push_back({RNG_ERR, 0, 5});
  Alloc a; a.guard = g.u(2); msan_params(); Out o = run_call(c, a); if (o.rc == 0 && rng_env.plan.empty()) compare(c, o, expect_call(c), "in this build");
  g.label(std::string(op_name[c.op]) + (o.rc ? "/failed" : "/ok")); g.nontrivial(call_hash(c)); g.desc("%s -> %d", show(c).c_str(), o.rc);
}
REGISTER {
#ifndef IDEAL
  reg("C13", "arguments", c13_light).on("asan", 6000, 400000).on("rel", 6000, 400000).guided("cov", 12000, 200000);
  reg("C13", "sphincs", c13_heavy).on("asan", 240, 8000).on("rel", 480, 16000);
  reg("C13", "short", c13_short).on("asan", 12000, 400000).on("rel", 12000, 400000);
  reg("C23", "history", c23_history).on("rel", 800, 30000);
  reg("C23", "near", c23_near).on("rel", 5000, 200000);
  reg("C23", "threads-sphincs", c23_threads_spx).on("rel", 24, 600).maxworkers(4).on("tsan", 24, 400);
  reg("C23", "threads", c23_threads).on("rel", 500, 20000).maxworkers(4).on("tsan", 200, 8000);
  reg("C26", "exhaustion", c26_oom).on("rel", 300, 12000);
  reg("C26", "balance", c26_balance).on("rel", 800, 40000).on("asan", 100, 4000);
  for (const char* v : {"rel", "gccO0", "gccO2", "clangO0", "clangO3"}) reg("C28", "builds", c28_builds).samecases().on(v, 900, 20000);
  for (const char* v : {"rel", "gccO0", "gccO2", "clangO0", "clangO3"}) reg("C28", "builds-sphincs", c28_builds_h).samecases().on(v, 16, 200);
  reg("C28", "memory", c28_poison).on("rel", 1200, 60000).on("gccO0", 600, 20000).on("clangO3", 600, 20000);
  reg("C28", "memory-sphincs", c28_poison_h).on("rel", 16, 600).on("clangO0", 8, 100);
  reg("C28", "uninitialised", c28_uninit).on("msan", 900, 40000);
#else
  reg("C13", "arguments", c13_light).on("ideal", 60000, 400000).guided("ideal", 160000, 1000000);
  reg("C23", "near", c23_near).on("ideal", 20000, 400000);
  reg("C23", "history", c23_history).on("ideal", 10000, 200000).guided("ideal", 12000, 100000);
#endif
};
