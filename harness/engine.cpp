#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cmath>
#include <fcntl.h>
#include <set>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

uint64_t g_seed = 1;
const char* g_variant = "rel";
bool g_thorough = false;
std::vector<uint64_t> g_dict;
void msan_check(const void* p, size_t n); void msan_ret();   // env.cpp
void ct_memcmp(const void* a, const void* b, size_t n, size_t first_diff);   // props_ct.cpp
void env_reset_case(uint64_t seed);     // env.cpp: fresh interposition state for a case

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

std::string strf(const char* fmt, ...) { char b[8192]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
void failf(const char* fmt, ...) { char b[8192]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); throw Failure{b}; }
std::string hex(const uint8_t* p, size_t n, size_t max) {
  std::string s; char b[4];
  for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", p[i]); s += b; }
  if (n > max) s += strf("..(%zu)", n);
  return s;
}
uint64_t hash64(const void* pv, size_t n, uint64_t seed) {
  const uint8_t* p = (const uint8_t*)pv; uint64_t h = mix64(seed ^ n);
  while (n >= 8) { uint64_t v; memcpy(&v, p, 8); h = mix64(h ^ v); p += 8; n -= 8; }
  if (n) { uint64_t v = 0; memcpy(&v, p, n); h = mix64(h ^ v ^ 0x77); }
  return h;
}

// ------------------------------------------------------------------------------------------- shared worker state
static const size_t MAXTAPE = 1 << 16, MAXOVER = 64;
struct Shm {
  volatile uint64_t idx; volatile uint32_t ntape, nover; volatile uint32_t running, done, hang;
  uint64_t tape[MAXTAPE]; struct { uint32_t buf, pos, n; uint8_t v[64]; } over[MAXOVER];
  char msg[4096];
};
static Shm* cur_shm = nullptr;

void die_in_library(const char* fmt, ...) {
  char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (cur_shm) { strncpy(cur_shm->msg, b, sizeof cur_shm->msg - 1); }
  fprintf(stderr, "die_in_library: %s\n", b); fflush(stderr);
  _exit(5);
}

// ------------------------------------------------------------------------------------------- Gen
uint64_t Gen::raw(uint64_t n, bool sw) {
  uint64_t v;
  if (replay) v = pos < in.tape.size() ? in.tape[pos] : 0;
  else if (sw) { v = n ? sweep_idx % n : 0; if (n) sweep_idx /= n; }
  else v = prng.next();
  if (n) v %= n;
  pos++;
  out.tape.push_back(v);
  if (cur_shm && cur_shm->ntape < MAXTAPE) { cur_shm->tape[cur_shm->ntape] = v; cur_shm->ntape = cur_shm->ntape + 1; }
  return v;
}
uint64_t Gen::u(uint64_t n) { return n <= 1 ? 0 : raw(n); }
uint64_t Gen::u64() { return raw(0); }
uint64_t Gen::sweep(uint64_t n) { return n <= 1 ? 0 : raw(n, true); }
size_t Gen::len(size_t lo, size_t hi, const std::vector<size_t>& marks) {
  if (hi <= lo) return lo;
  size_t r = lo;
  switch (u(6)) {
    case 0: r = lo + u(std::min<size_t>(hi - lo + 1, 20)); break;
    case 1: r = hi - u(std::min<size_t>(hi - lo + 1, 4)); break;
    case 2: if (!marks.empty()) { size_t m = marks[u(marks.size())]; r = m + u(3); if (r) r--; break; }  // fallthrough
    case 3: { int b = 0; while ((hi - lo) >> b) b++; r = lo + u(std::min<uint64_t>(1ULL << u(b + 1), hi - lo + 1)); break; }
    default: r = lo + u(hi - lo + 1);
  }
  return std::min(std::max(r, lo), hi);
}
void Gen::applyOver(Bytes& b) {
  for (auto& o : in.over) if (o.buf == nbuf) for (size_t i = 0; i < o.val.size(); i++) if (o.pos + i < b.size()) b[o.pos + i] = o.val[i];
  if (guided) mat.push_back(b);
  nbuf++;
}
Bytes Gen::bytes(size_t n) {
  Bytes b(n);
  if (n) {
    switch (u(12)) {
      case 0: case 1: break;                                     // zeros
      case 2: memset(b.data(), 0xff, n); break;
      case 3: { uint8_t v = u(256); memset(b.data(), v, n); break; }
      case 4: { uint8_t s = u(256), d = u(256); for (size_t i = 0; i < n; i++) b[i] = s + d * i; break; }
      case 5: { uint64_t p = u64(); unsigned per = 1 + u(8); for (size_t i = 0; i < n; i++) b[i] = p >> (8 * (i % per)); break; }
      case 6: { Prng r(u64()); r.fill(b.data(), n); size_t z = u(n + 1); memset(b.data(), 0, z); break; }       // zero prefix
      case 7: { Prng r(u64()); r.fill(b.data(), n); size_t z = u(n + 1); memset(b.data() + n - z, u(2) ? 0xff : 0, z); break; }  // constant suffix
      case 8: { Prng r(u64()); r.fill(b.data(), n); for (auto& x : b) x = 0x20 + x % 95; break; }                // printable
      default: { Prng r(u64()); r.fill(b.data(), n); }
    }
    static const uint8_t iv[] = {0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x20, 0x0a, 0x40, 0x3f, 0xed, 0xec, 0xee, 0x10};
    unsigned k = 0; switch (u(4)) { case 1: k = 1; break; case 2: k = 1 + u(3); break; case 3: k = u(2) ? 1 + u(8) : 0; break; default: break; }
    for (unsigned e = 0; e < k; e++) {
      size_t p = u(3) == 0 ? (u(2) ? n - 1 - u(std::min<size_t>(n, 4)) : u(std::min<size_t>(n, 4))) : u(n);
      unsigned how = u(4);
      if (how == 0) b[p] = iv[u(sizeof iv)];
      else if (how == 1) b[p] ^= 1u << u(8);
      else if (how == 2 && !g_dict.empty()) {
        uint64_t d = g_dict[u(g_dict.size())]; unsigned w = 1u << u(4); bool be = u(2);
        for (unsigned i = 0; i < w && p + i < n; i++) b[p + i] = d >> (8 * (be ? w - 1 - i : i));
      } else b[p] = u(256);
    }
  }
  applyOver(b);
  return b;
}
Bytes Gen::rnd(size_t n) { Bytes b(n); Prng r(u64()); r.fill(b.data(), n); applyOver(b); return b; }
void Gen::desc(const char* fmt, ...) { char b[1024]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); if (!text.empty()) text += " | "; text += b; }

// ------------------------------------------------------------------------------------------- registry
static std::vector<Test>& tests() { static std::vector<Test>* t = new std::vector<Test>; return *t; }
Test& reg(const char* p, const char* n, TestFn f) { tests().reserve(512); Test t; t.prop = p; t.name = n; t.fn = f; tests().push_back(t); return tests().back(); }

// ------------------------------------------------------------------------------------------- coverage callbacks (weak; only used when instrumented)
struct Cov {
  std::vector<uint8_t> seen;                 // ever
  std::vector<uint32_t> hit;                 // this run
  std::vector<uint8_t> hitf;
  bool on = false, neweq = false;
  struct Pair { uint64_t a, b; uint8_t w; uint32_t h; };
  std::vector<Pair> pairs;                   // recent comparison operands
  std::vector<Pair> open_;                   // operands at comparisons with a constant that never came out equal
  std::vector<uint8_t> eq = std::vector<uint8_t>(1 << 16), per = std::vector<uint8_t>(1 << 16); std::vector<uint32_t> tried = std::vector<uint32_t>(1 << 16);
  uint64_t npairs = 0;
  std::unordered_set<uint64_t> feats, newf;
  std::unordered_set<uint64_t> dict;
  struct Mem { Bytes a, b; };
  std::vector<Mem> mems;
};
static Cov& cov() { static Cov* c = new Cov; return *c; }
static inline void cov_cmp(uint64_t a, uint64_t b, unsigned w, bool isconst, uintptr_t pc) {
  Cov& c = cov(); if (!c.on) return;
  uint32_t h = mix64(pc) & 0xffff;
  if (a == b) { if (isconst && !c.eq[h]) { c.eq[h] = 1; c.neweq = true; c.newf.insert(mix64(h + 0x1000000)); } return; }
  if (isconst && !c.eq[h] && c.per[h] < 6) { c.per[h]++; c.open_.push_back({a, b, (uint8_t)w, h}); }
  // keep a sparse, bounded sample of operand pairs
  c.npairs++;
  if (isconst && a > 1 && c.dict.size() < 4096) c.dict.insert(a);
  if (c.pairs.size() < 4096) c.pairs.push_back({a, b, (uint8_t)w, h});
  else if ((mix64(c.npairs) & 15) == 0) c.pairs[mix64(c.npairs * 3 + 1) % 4096] = {a, b, (uint8_t)w, h};
  if (w >= 2) { uint64_t x = a ^ b; unsigned m = 0; for (unsigned i = 0; i < w; i++) if (((x >> (8 * i)) & 255) == 0) m++; uint64_t f = mix64(pc * 16 + m + 1); if (c.feats.size() + c.newf.size() < 60000 && !c.feats.count(f)) c.newf.insert(f); }
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* s, uint32_t* e) { static uint32_t n = 0; if (s == e || *s) return; for (; s < e; s++) *s = ++n; Cov& c = cov(); c.seen.resize(n + 1); c.hitf.resize(n + 1); }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { Cov& c = cov(); uint32_t i = *g; if (i && c.on && i < c.hitf.size() && !c.hitf[i]) { c.hitf[i] = 1; c.hit.push_back(i); } }
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cov_cmp(a, b, 1, false, PC); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cov_cmp(a, b, 2, false, PC); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cov_cmp(a, b, 4, false, PC); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cov_cmp(a, b, 8, false, PC); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cov_cmp(a, b, 1, true, PC); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cov_cmp(a, b, 2, true, PC); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cov_cmp(a, b, 4, true, PC); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cov_cmp(a, b, 8, true, PC); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* cases) { for (uint64_t i = 0; i < cases[0]; i++) cov_cmp(cases[2 + i], v, (unsigned)(cases[1] / 8), true, PC + i); }
int vf_memcmp(const void* a, const void* b, size_t n) {
  int r = 0; msan_check(a, n); msan_check(b, n); msan_ret(); const uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b; size_t i = 0;
  for (; i < n; i++) if (x[i] != y[i]) { r = x[i] < y[i] ? -1 : 1; break; }
#ifdef VF_CT
  ct_memcmp(a, b, n, i);
#endif
  Cov& c = cov();
  if (c.on && r && n <= 64) { if (c.mems.size() < 64) c.mems.push_back({Bytes(x, x + n), Bytes(y, y + n)}); uint64_t f = mix64(PC * 64 + i + 7); if (!c.feats.count(f)) c.newf.insert(f); }
  return r;
}
}

// ------------------------------------------------------------------------------------------- execution of one case
enum Outcome { PASS, FAIL, DISCARD };
static uint64_t case_seed(const Test& t, uint64_t idx) { uint64_t h = hash64(std::string(t.prop) + "/" + t.name + (t.same ? "" : std::string("/") + g_variant), g_seed); return mix64(h ^ mix64(idx)); }

static Outcome exec_case(const Test& t, Gen& g, std::string& msg) {
  if (cur_shm) { cur_shm->ntape = 0; cur_shm->msg[0] = 0; cur_shm->nover = 0;
    for (auto& o : g.in.over) if (cur_shm->nover < MAXOVER) { auto& s = cur_shm->over[cur_shm->nover]; s.buf = o.buf; s.pos = o.pos; s.n = std::min<size_t>(o.val.size(), 64); memcpy(s.v, o.val.data(), s.n); cur_shm->nover = cur_shm->nover + 1; }
    cur_shm->running = 1; }
  g.out.over = g.in.over;
  env_reset_case(0x5eed);
  Outcome r = PASS;
  try { t.fn(g); } catch (const Failure& f) { msg = f.msg; r = FAIL; } catch (const Discard&) { r = DISCARD; }
  if (cur_shm) cur_shm->running = 0;
  return r;
}

static double g_cpu = 40;
static void on_prof(int) { if (cur_shm) cur_shm->hang = 1; static const char m[] = "engine: per-case CPU limit exceeded\n"; ssize_t w = write(2, m, sizeof m - 1); (void)w; _exit(6); }
static void arm(double s) { itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6); setitimer(ITIMER_PROF, &it, nullptr); }

int run_in_child(void (*f)(void*), void* arg, double cpu) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) failf("harness: fork failed");
  if (p == 0) { signal(SIGPROF, SIG_DFL); arm(cpu); f(arg); _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return st;
}

// ------------------------------------------------------------------------------------------- worker
struct Result {
  uint64_t cases = 0, discards = 0, ntcases = 0; std::unordered_set<uint64_t> nts; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
  uint64_t edges = 0, corpus = 0; double cpu = 0; bool deadline = false;
  bool failed = false; uint64_t fidx = 0; std::string fmsg; Case fcase; std::string kind; unsigned worker = 0;
};

static void account(Result& r, Gen& g, Outcome o) {
  r.cases++;
  if (o == DISCARD) { r.discards++; return; }
  for (auto& l : g.labels) r.labels[l.first] += l.second;
  if (g.nt) { r.ntcases++; r.nts.insert(g.nth); if (!g.text.empty() && (r.samples.size() < 3 || (r.samples.size() < 12 && (mix64(g.nth) & 63) == 0))) r.samples.push_back(g.text); }
}

static Case mutate(const Case& base, const std::vector<Case>& corpus, Prng& r, const std::vector<uint64_t>& dict, const std::vector<Bytes>& mat) {
  Case c = base;
  unsigned n = 1 + r.next() % 3;
  for (unsigned k = 0; k < n; k++) {
    unsigned op = r.next() % 10;
    if (op < 4 && !mat.empty()) {                      // override content of a generated buffer
      uint32_t b = r.next() % mat.size(); if (mat[b].empty()) continue;
      Override o; o.buf = b; o.pos = r.next() % mat[b].size(); unsigned w = 1u << (r.next() % 4); if (r.next() % 2) w = 1; bool be = r.next() & 1; uint64_t v;
      switch (r.next() % 4) { case 0: v = r.next(); break; case 1: v = mat[b][o.pos] ^ (1u << (r.next() % 8)); break; default: v = dict.empty() ? r.next() : dict[r.next() % dict.size()]; }
      for (unsigned i = 0; i < w; i++) o.val.push_back(v >> (8 * (be ? w - 1 - i : i)));
      if (c.over.size() < 32) c.over.push_back(o);
    } else if (op == 4 && !c.over.empty()) { c.over.erase(c.over.begin() + r.next() % c.over.size()); }
    else if (op == 5 && !c.over.empty()) { auto& o = c.over[r.next() % c.over.size()]; if (!o.val.empty()) o.val[r.next() % o.val.size()] = r.next(); }
    else if (!c.tape.empty()) {
      size_t p = r.next() % c.tape.size();
      switch (r.next() % 5) {
        case 0: c.tape[p] = r.next(); break;
        case 1: c.tape[p] += (r.next() % 9) - 4; break;
        case 2: c.tape[p] = r.next() % 16; break;
        case 3: if (!dict.empty()) c.tape[p] = dict[r.next() % dict.size()]; break;
        case 4: if (!corpus.empty()) { const Case& o = corpus[r.next() % corpus.size()]; for (size_t i = p; i < c.tape.size() && i < o.tape.size(); i++) c.tape[i] = o.tape[i]; } break;
      }
    }
  }
  return c;
}

static void fail_record(Result& r, const Gen& g, uint64_t idx, const std::string& msg) { r.failed = true; r.fidx = idx; r.fmsg = msg; r.fcase = g.out; r.kind = "assert"; }

static void worker_plain(const Test& t, uint64_t n, unsigned w, unsigned W, double deadline, Result& r, FILE* dig, uint64_t upto = UINT64_MAX) {
  for (uint64_t i = w; i < n && i <= upto; i += W) {
    if (deadline > 0 && now() > deadline) { r.deadline = true; break; }
    Gen g; g.idx = i; g.sweep_idx = i; g.prng = Prng(case_seed(t, i));
    if (cur_shm) cur_shm->idx = i;
    arm(g_cpu);
    std::string msg; Outcome o = exec_case(t, g, msg);
    account(r, g, o);
    if (dig && g.hasdig) fprintf(dig, "%llu %016llx\n", (unsigned long long)i, (unsigned long long)g.dig);
    if (o == FAIL) { fail_record(r, g, i, msg); break; }
  }
  arm(0);
}

template <class F> static void each(const Bytes& m, const uint8_t* x, size_t n, F f) {   // occurrences of x in m, until f says stop
  if (m.size() < n) return;
  for (const uint8_t *p = m.data(), *e = m.data() + m.size() - n + 1; p < e && (p = (const uint8_t*)memchr(p, x[0], e - p)); p++) if (!memcmp(p, x, n) && !f(p - m.data())) return;
}
static void worker_guided(const Test& t, uint64_t n, unsigned w, unsigned W, double deadline, Result& r) {
  Cov& c = cov();
  std::vector<Case> corpus; std::vector<std::vector<Bytes>> mats; std::vector<uint64_t> dict; size_t dictn = 0;
  std::vector<Case> pending;                           // derived from comparison operands
  struct Loc { struct P { int64_t tag, off; bool be; }; bool init = false, dead = false; unsigned obs = 0; std::vector<P> c; }; std::unordered_map<uint32_t, Loc> locs;
  Prng rng(case_seed(t, 0x6000000 + w));
  uint64_t mine = n / W + (w < n % W);
  for (uint64_t k = 0; k < mine; k++) {
    if (deadline > 0 && now() > deadline) { r.deadline = true; break; }
    Gen g; g.guided = true; g.idx = k * W + w; g.sweep_idx = g.idx;
    if (!pending.empty() && (k & 1)) { g.replay = true; size_t p = rng.next() & 1 ? pending.size() - 1 : rng.next() % pending.size(); g.in = pending[p]; pending.erase(pending.begin() + p); }
    else if (corpus.empty() || rng.next() % 5 == 0) g.prng = Prng(case_seed(t, g.idx));
    else { size_t b = rng.next() % 3 == 0 ? rng.next() % corpus.size() : corpus.size() - 1 - rng.next() % std::min<size_t>(corpus.size(), 12); g.replay = true; g.in = mutate(corpus[b], corpus, rng, dict, mats[b]); }
    if (cur_shm) cur_shm->idx = g.idx;
    arm(g_cpu);
    c.pairs.clear(); for (auto& p : c.open_) c.per[p.h] = 0; c.open_.clear(); c.mems.clear(); c.npairs = 0; c.newf.clear(); for (auto h : c.hit) c.hitf[h] = 0; c.hit.clear();
    c.neweq = false; c.on = true; std::string msg; Outcome o = exec_case(t, g, msg); c.on = false;
    account(r, g, o);
    if (o == FAIL) { fail_record(r, g, g.idx, msg); break; }
    bool fresh = false; for (auto h : c.hit) if (!c.seen[h]) { c.seen[h] = 1; r.edges++; fresh = true; }
    bool freshcmp = false; for (auto f : c.newf) { if (c.feats.insert(f).second) freshcmp = true; }
    if (fresh || (freshcmp && corpus.size() < 400)) { corpus.push_back(g.out); mats.push_back(g.mat); }
    if (c.dict.size() != dictn) { dictn = c.dict.size(); dict.assign(c.dict.begin(), c.dict.end()); std::sort(dict.begin(), dict.end()); }
    // input-to-state: operands that literally occur in a generated buffer are replaced by the other operand
    {
      auto push = [&](const Case& cc) { if (cc.over.size() > 32) return; if (pending.size() >= 256) pending.erase(pending.begin() + rng.next() % 128); pending.push_back(cc); };
      auto add = [&](const uint8_t* from, const uint8_t* to, size_t wd) {
        for (uint32_t b = 0; b < g.mat.size(); b++) { auto& m = g.mat[b]; if (m.size() < wd) continue;
          size_t found = 0; each(m, from, wd, [&](size_t p) { found++; Case cc = g.out; cc.over.push_back({b, (uint32_t)p, Bytes(to, to + wd)}); push(cc); return found < 2; }); }
      };
      for (auto& m : c.mems) for (size_t wd = m.a.size(); wd >= 2; wd = wd > 16 ? 16 : wd > 8 ? 8 : wd > 4 ? 4 : wd > 2 ? 2 : 0) { add(m.a.data(), m.b.data(), wd); add(m.b.data(), m.a.data(), wd); if (wd == 2) break; }
      // comparisons with a constant that were never equal so far, least tried first; every place the operand may come from is a candidate
      std::vector<Case> ops; std::vector<Cov::Pair> op; std::unordered_map<uint32_t, size_t> seen;   // per: 1 if the operands were the same at every execution in this case
      for (auto& pr : c.open_) if (!c.eq[pr.h]) { auto it = seen.find(pr.h); if (it == seen.end()) { seen[pr.h] = op.size(); op.push_back(pr); c.per[pr.h] = 1; } else { auto& o = op[it->second]; if (o.a != pr.a || o.b != pr.b) { c.per[pr.h] = 2; op.push_back(pr); } } }
      std::stable_sort(op.begin(), op.end(), [&](const Cov::Pair& x, const Cov::Pair& y) { return c.tried[x.h] < c.tried[y.h]; });
      g.mattag.resize(g.mat.size());
      auto tag = [&](uint32_t b) { return g.mattag[b] ? -(int64_t)g.mattag[b] : (int64_t)g.mat[b].size(); };
      auto enc = [&](const Cov::Pair& pr, bool be, uint8_t* A, uint8_t* B) { unsigned need = pr.w; if (pr.a < 256 && pr.b < 256) need = 1; else if (need > 2 && pr.a < 65536 && pr.b < 65536) need = 2; else if (need > 4 && !(pr.a >> 32) && !(pr.b >> 32)) need = 4; for (unsigned i = 0; i < need; i++) { A[i] = pr.a >> (8 * (be ? need - 1 - i : i)); B[i] = pr.b >> (8 * (be ? need - 1 - i : i)); } return need; };
      // learn which input position feeds the comparison: the ones whose content equalled the operand in every observation
      for (auto& pr : op) if (c.per[pr.h] == 1) {
        Loc& l = locs[pr.h]; if (l.dead) continue; uint8_t A[8], B[8];
        if (!l.init) { l.init = true; for (int be = 0; be < 2; be++) { unsigned n = enc(pr, be, A, B); if (be && n == 1) break; for (uint32_t b = 0; b < g.mat.size(); b++) each(g.mat[b], B, n, [&](size_t p) { l.c.push_back({tag(b), (int64_t)p, be != 0}); l.c.push_back({tag(b), (int64_t)p - (int64_t)g.mat[b].size(), be != 0}); return l.c.size() < 20000; }); } }
        else { std::map<int64_t, std::vector<uint32_t>> by; for (uint32_t b = 0; b < g.mat.size(); b++) by[tag(b)].push_back(b);
          l.c.erase(std::remove_if(l.c.begin(), l.c.end(), [&](const Loc::P& x) { auto it = by.find(x.tag); if (it == by.end()) return false; unsigned n = enc(pr, x.be, A, B); for (auto b : it->second) { int64_t p = x.off < 0 ? x.off + (int64_t)g.mat[b].size() : x.off; if (p >= 0 && (size_t)p + n <= g.mat[b].size() && !memcmp(g.mat[b].data() + p, B, n)) return false; } return true; }), l.c.end()); }
        l.obs++; if (l.c.empty()) l.dead = true;
      }
      for (size_t q = 0, pcs = 0; q < op.size() && pcs < 8 && ops.size() < 24; q++) {
        auto& pr = op[q]; if (c.tried[pr.h] > 24 && rng.next() % 16) continue; c.tried[pr.h]++; pcs++; uint8_t A[8], B[8]; auto L = locs.find(pr.h);
        if (c.per[pr.h] == 1 && L != locs.end() && !L->second.dead && L->second.obs >= 2 && L->second.c.size() <= 48) {
          for (auto& x : L->second.c) for (uint32_t b = 0; b < g.mat.size(); b++) if (tag(b) == x.tag) { unsigned n = enc(pr, x.be, A, B); int64_t p = x.off < 0 ? x.off + (int64_t)g.mat[b].size() : x.off; if (p >= 0 && (size_t)p + n <= g.mat[b].size() && !memcmp(g.mat[b].data() + p, B, n)) { Case cc = g.out; cc.over.push_back({b, (uint32_t)p, Bytes(A, A + n)}); ops.push_back(cc); } }
          continue;
        }
        for (int be = 0; be < 2; be++) {
          unsigned need = enc(pr, be, A, B); if (be && need == 1) break;
          std::vector<std::pair<uint32_t, uint32_t>> at;   // the variable operand is pr.b
          for (uint32_t b = 0; b < g.mat.size(); b++) each(g.mat[b], B, need, [&](size_t p) { at.push_back({b, (uint32_t)p}); return at.size() < 4096; });
          for (unsigned t = 0; t < 2 && !at.empty(); t++) { size_t x = rng.next() % at.size(); Case cc = g.out; cc.over.push_back({at[x].first, at[x].second, Bytes(A, A + need)}); ops.push_back(cc); at[x] = at.back(); at.pop_back(); }
        }
      }
      unsigned tries = 0;
      for (size_t q = 0; q < c.pairs.size() && tries < 40; q++) {
        auto& pr = c.pairs[rng.next() % c.pairs.size()]; tries++;
        unsigned need = pr.w; if (pr.w > 1 && pr.a < 256 && pr.b < 256) need = 1;   // promoted bytes
        uint8_t A[8], B[8]; for (unsigned i = 0; i < need; i++) { A[i] = pr.a >> (8 * i); B[i] = pr.b >> (8 * i); }
        if (need == 1) { if (rng.next() % 8 == 0) { add(A, B, 1); add(B, A, 1); } continue; }
        add(A, B, need); add(B, A, need);
        std::reverse(A, A + need); std::reverse(B, B + need); add(A, B, need); add(B, A, need);
      }
      // a comparison came out equal for the first time: the same content in other circumstances
      if (c.neweq && !g.out.over.empty()) for (int i = 0; i < 24 && !g.out.tape.empty(); i++) { Case cc = g.out; for (unsigned q = 1 + rng.next() % 2; q; q--) cc.tape[rng.next() % std::min<size_t>(cc.tape.size(), 64)] = rng.next() & 1 ? rng.next() : rng.next() % 24; push(cc); }
      for (size_t i = ops.size(); i--;) push(ops[i]);   // the least tried comparison ends up newest
    }
  }
  r.corpus = corpus.size();
  arm(0);
}

// ------------------------------------------------------------------------------------------- result (de)serialisation between processes
static void put(FILE* f, const std::string& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
static void put(FILE* f, uint64_t v) { fwrite(&v, 8, 1, f); }
static bool get(FILE* f, std::string& s) { uint64_t n; if (fread(&n, 8, 1, f) != 1) return false; s.resize(n); return n == 0 || fread(&s[0], 1, n, f) == n; }
static bool get(FILE* f, uint64_t& v) { return fread(&v, 8, 1, f) == 1; }
static void save(const Result& r, const std::string& path) {
  FILE* f = fopen(path.c_str(), "wb"); if (!f) return;
  put(f, r.cases); put(f, r.discards); put(f, r.ntcases); put(f, (uint64_t)r.nts.size()); for (auto x : r.nts) put(f, x);
  put(f, (uint64_t)r.labels.size()); for (auto& l : r.labels) { put(f, l.first); put(f, l.second); }
  put(f, (uint64_t)r.samples.size()); for (auto& s : r.samples) put(f, s);
  put(f, r.edges); put(f, r.corpus); put(f, (uint64_t)r.deadline); put(f, (uint64_t)r.failed); put(f, r.fidx); put(f, r.fmsg); put(f, r.kind);
  put(f, (uint64_t)r.fcase.tape.size()); for (auto x : r.fcase.tape) put(f, x);
  put(f, (uint64_t)r.fcase.over.size()); for (auto& o : r.fcase.over) { put(f, (uint64_t)o.buf); put(f, (uint64_t)o.pos); put(f, std::string(o.val.begin(), o.val.end())); }
  put(f, (uint64_t)0xC0FFEE);
  fclose(f);
}
static bool load(Result& r, const std::string& path) {
  FILE* f = fopen(path.c_str(), "rb"); if (!f) return false;
  uint64_t n, v; std::string s; bool ok = true;
  ok = get(f, r.cases) && get(f, r.discards) && get(f, r.ntcases) && get(f, n);
  for (uint64_t i = 0; ok && i < n; i++) { ok = get(f, v); r.nts.insert(v); }
  ok = ok && get(f, n); for (uint64_t i = 0; ok && i < n; i++) { ok = get(f, s) && get(f, v); r.labels[s] = v; }
  ok = ok && get(f, n); for (uint64_t i = 0; ok && i < n; i++) { ok = get(f, s); r.samples.push_back(s); }
  ok = ok && get(f, r.edges) && get(f, r.corpus) && get(f, v); r.deadline = v; ok = ok && get(f, v); r.failed = v; ok = ok && get(f, r.fidx) && get(f, r.fmsg) && get(f, r.kind);
  ok = ok && get(f, n); for (uint64_t i = 0; ok && i < n; i++) { ok = get(f, v); r.fcase.tape.push_back(v); }
  ok = ok && get(f, n); for (uint64_t i = 0; ok && i < n; i++) { uint64_t a, b; ok = get(f, a) && get(f, b) && get(f, s); r.fcase.over.push_back({(uint32_t)a, (uint32_t)b, Bytes(s.begin(), s.end())}); }
  ok = ok && get(f, v) && v == 0xC0FFEE;
  fclose(f); return ok;
}
static Case shm_case(Shm* s) { Case c; for (uint32_t i = 0; i < s->ntape; i++) c.tape.push_back(s->tape[i]); for (uint32_t i = 0; i < s->nover; i++) c.over.push_back({s->over[i].buf, s->over[i].pos, Bytes(s->over[i].v, s->over[i].v + s->over[i].n)}); return c; }
static Shm* newshm() { void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Shm*)p; }

static std::string tmpdir;
static std::string slurp_tail(const std::string& path, size_t max = 3000) {
  FILE* f = fopen(path.c_str(), "rb"); if (!f) return ""; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
  if (s.size() > max) s = s.substr(0, max); return s;
}
static std::string describe_status(int st, Shm* s, const std::string& err) {
  std::string d;
  if (s && s->hang) d = "did not terminate within the per-case CPU limit";
  else if (WIFSIGNALED(st)) d = strf("crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else if (WEXITSTATUS(st) == 5 && s && s->msg[0]) d = s->msg;
  else d = strf("process ended with status %d", WEXITSTATUS(st));
  // first sanitizer line
  size_t p = err.find("SUMMARY:"); if (p == std::string::npos) p = err.find("runtime error:"); if (p == std::string::npos) p = err.find("ERROR:");
  if (p != std::string::npos) { size_t b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; size_t e = err.find('\n', p); d += ": " + err.substr(b, e == std::string::npos ? 400 : std::min<size_t>(e - b, 400)); }
  return d;
}

// run a single case in a child; returns true when it fails
static bool child_fails(const Test& t, const Case& c, std::string& msg, Case* norm) {
  Shm* s = newshm(); std::string rp = tmpdir + "/child.res", ep = tmpdir + "/child.err"; unlink(rp.c_str());
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(ep.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
    cur_shm = s; signal(SIGPROF, on_prof); arm(g_cpu);
    Gen g; g.replay = true; g.in = c; std::string m; Outcome o = exec_case(t, g, m);
    Result r; r.failed = o == FAIL; r.fmsg = m; r.fcase = g.out; save(r, rp); _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  bool fails; 
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { Result r; fails = load(r, rp) && r.failed; msg = r.fmsg; if (norm) *norm = r.fcase; }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fails = false; msg = "killed"; }
  else { fails = true; msg = describe_status(st, s, slurp_tail(ep)); if (norm) *norm = shm_case(s); }
  munmap(s, sizeof(Shm)); return fails;
}

static Case shrink(const Test& t, Case c, std::string& msg, double budget, unsigned* steps) {
  double end = now() + budget; Case norm; std::string m;
  if (child_fails(t, c, m, &norm)) { msg = m; if (norm.tape.size() <= c.tape.size() || c.tape.empty()) c = norm; }
  auto attempt = [&](const Case& cand) { if (now() > end) return false; Case nn; std::string mm; (*steps)++; if (!child_fails(t, cand, mm, &nn)) return false; if (nn.tape.size() > c.tape.size()) nn = cand; c = nn; msg = mm; return true; };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t i = c.over.size(); i-- > 0 && now() < end;) { Case d = c; d.over.erase(d.over.begin() + i); if (attempt(d)) progress = true; if (i > c.over.size()) i = c.over.size(); }
    // zero suffix blocks, then blocks, then individual lowering
    for (size_t blk = std::max<size_t>(c.tape.size() / 2, 1); blk >= 1 && now() < end; blk /= 2) {
      for (size_t i = 0; i < c.tape.size() && now() < end; i += blk) {
        bool nz = false; for (size_t j = i; j < std::min(i + blk, c.tape.size()); j++) nz |= c.tape[j] != 0;
        if (nz) { Case d = c; for (size_t j = i; j < std::min(i + blk, d.tape.size()); j++) d.tape[j] = 0; if (attempt(d)) { progress = true; continue; } }
        Case d = c; d.tape.erase(d.tape.begin() + i, d.tape.begin() + std::min(i + blk, d.tape.size())); if (attempt(d)) progress = true;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < c.tape.size() && now() < end; i++) {
      uint64_t v = c.tape[i]; if (!v) continue;
      uint64_t lo = 0, hi = v;     // find a small failing value by bisection
      for (int k = 0; k < 12 && lo + 1 < hi && now() < end; k++) { uint64_t mid = lo + (hi - lo) / 2; Case d = c; if (i >= d.tape.size()) break; d.tape[i] = mid; if (attempt(d)) { hi = mid; progress = true; } else lo = mid; }
    }
    if (!progress) break;
  }
  return c;
}

static std::string jesc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c > 0x7e) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

static void write_replay(const std::string& path, const Test& t, const Case& c, const std::string& msg, const char* mode, uint64_t n, unsigned w, unsigned W, uint64_t idx, bool guided) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); return; }
  fprintf(f, "{\"property\":\"%s\",\"test\":\"%s\",\"variant\":\"%s\",\"seed\":%llu,\"thorough\":%d,\"mode\":\"%s\",\"guided\":%d,\n\"n\":%llu,\"worker\":%u,\"workers\":%u,\"idx\":%llu,\n\"message\":\"%s\",\n", t.prop, t.name, g_variant, (unsigned long long)g_seed, g_thorough, mode, guided, (unsigned long long)n, w, W, (unsigned long long)idx, jesc(msg).c_str());
  fprintf(f, "\"tape\":["); for (size_t i = 0; i < c.tape.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)c.tape[i]);
  fprintf(f, "],\n\"over\":["); for (size_t i = 0; i < c.over.size(); i++) fprintf(f, "%s[%u,%u,\"%s\"]", i ? "," : "", c.over[i].buf, c.over[i].pos, hex(c.over[i].val, 1 << 20).c_str());
  fprintf(f, "]}\n"); fclose(f);
}

// history replay: the worker's whole sequence up to the failing case
static bool history_fails(const Test& t, uint64_t n, unsigned w, unsigned W, uint64_t idx, bool guided, std::string& msg) {
  Shm* s = newshm(); std::string rp = tmpdir + "/hist.res", ep = tmpdir + "/hist.err"; unlink(rp.c_str()); fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(ep.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd); cur_shm = s; signal(SIGPROF, on_prof);
    Result r; if (guided) worker_guided(t, n, w, W, 0, r); else worker_plain(t, n, w, W, 0, r, nullptr, idx); save(r, rp); _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  bool fails;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { Result r; fails = load(r, rp) && r.failed; msg = r.fmsg; } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) fails = false; else { fails = true; msg = describe_status(st, s, slurp_tail(ep)); }
  munmap(s, sizeof(Shm)); return fails;
}

static std::string jstr(const std::string& js, const char* key) { std::string k = std::string("\"") + key + "\":"; size_t p = js.find(k); if (p == std::string::npos) return ""; p += k.size(); if (js[p] == '"') { size_t e = p + 1; while (e < js.size() && js[e] != '"') { if (js[e] == '\\') e++; e++; } return js.substr(p + 1, e - p - 1); } if (js[p] == '[') { int d = 0; size_t e = p; do { if (js[e] == '[') d++; if (js[e] == ']') d--; e++; } while (d && e < js.size()); return js.substr(p, e - p); } size_t e = js.find_first_of(",}\n", p); return js.substr(p, e - p); }

static int do_replay(const char* path) {
  std::string js = slurp_tail(path, 1 << 26); if (js.empty()) { fprintf(stderr, "cannot read %s\n", path); return 2; }
  std::string prop = jstr(js, "property"), name = jstr(js, "test"); g_seed = strtoull(jstr(js, "seed").c_str(), 0, 10); g_thorough = jstr(js, "thorough") == "1";
  for (auto& t : tests()) if (prop == t.prop && name == t.name) {
    g_cpu = t.cpu; std::string msg; bool f;
    if (jstr(js, "mode") == "history") f = history_fails(t, strtoull(jstr(js, "n").c_str(), 0, 10), atoi(jstr(js, "worker").c_str()), atoi(jstr(js, "workers").c_str()), strtoull(jstr(js, "idx").c_str(), 0, 10), jstr(js, "guided") == "1", msg);
    else {
      Case c; std::string tp = jstr(js, "tape"); for (size_t i = 1; i < tp.size();) { char* e; if (!isdigit((unsigned char)tp[i])) { i++; continue; } c.tape.push_back(strtoull(&tp[i], &e, 10)); i = e - tp.c_str(); }
      std::string ov = jstr(js, "over"); for (size_t i = 1; i < ov.size();) { size_t b = ov.find('[', i); if (b == std::string::npos) break; unsigned bu, po; char hx[200] = {0}; if (sscanf(ov.c_str() + b, "[%u,%u,\"%199[0-9a-f]", &bu, &po, hx) < 2) break; Override o; o.buf = bu; o.pos = po; for (size_t k = 0; hx[k] && hx[k + 1]; k += 2) { unsigned v; sscanf(hx + k, "%2x", &v); o.val.push_back(v); } c.over.push_back(o); i = ov.find(']', b) + 1; }
      f = child_fails(t, c, msg, nullptr);
    }
    printf("%s %s/%s [%s]: %s\n", f ? "FAILS" : "passes", prop.c_str(), name.c_str(), g_variant, f ? msg.c_str() : "");
    return f ? 1 : 0;
  }
  fprintf(stderr, "no such test %s/%s\n", prop.c_str(), name.c_str()); return 2;
}

int main(int argc, char** argv) {
  std::string prop, out, replay, only, digest, replaydir; unsigned W = 8; double budget = 0; double scale = 1; bool list = false, nofail = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto v = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
    if (a == "--prop") prop = v(); else if (a == "--out") out = v(); else if (a == "--replay") replay = v(); else if (a == "--test") only = v(); else if (a == "--seed") g_seed = strtoull(v(), 0, 10);
    else if (a == "--tier") g_thorough = std::string(v()) == "thorough"; else if (a == "--variant") g_variant = v(); else if (a == "--workers") W = atoi(v()); else if (a == "--budget") budget = atof(v()); else if (a == "--scale") scale = atof(v()); else if (a == "--digest") digest = v(); else if (a == "--replaydir") replaydir = v(); else if (a == "--list") list = true; else if (a == "--tmp") tmpdir = v(); else if (a == "--nofail") nofail = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; } }
  if (list) { for (auto& t : tests()) for (auto& p : t.plans) printf("%s %s %s %llu %llu %d\n", t.prop, t.name, p.variant, (unsigned long long)p.quick, (unsigned long long)p.thorough, p.guided); return 0; }
  if (tmpdir.empty()) { char b[] = "/tmp/vfXXXXXX"; if (!mkdtemp(b)) return 2; tmpdir = b; }
  if (!replay.empty()) return do_replay(replay.c_str());
  // static dictionary
  for (uint64_t v : {0ULL, 1ULL, 32ULL, 40ULL, 63ULL, 64ULL, 65ULL, 96ULL, 104ULL, 127ULL, 128ULL, 136ULL, 160ULL, 168ULL, 255ULL, 256ULL, 1312ULL, 2420ULL, 2560ULL, 65535ULL, 8380417ULL, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0xdeadbeefULL, 0xcafebabeULL, 0x41414141ULL}) g_dict.push_back(v);
  double start = now(); int rc = 0; FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!o) { perror("out"); return 2; }
  fprintf(o, "{\"tests\":["); bool first = true;
  for (auto& t : tests()) {
    if (prop != t.prop || (!only.empty() && only != t.name)) continue;
    for (auto& p : t.plans) {
      if (strcmp(p.variant, g_variant)) continue;
      uint64_t n = g_thorough ? p.thorough : p.quick; n = (uint64_t)std::ceil(n * scale); if (!n) continue;
      unsigned WW = std::min<unsigned>(W, t.workers); if (WW > n) WW = n;
      g_cpu = t.cpu; double deadline = budget > 0 ? start + budget : 0; double t0 = now();
      std::vector<Shm*> sh(WW); std::vector<pid_t> pid(WW); std::vector<int> alive(WW, 1); std::vector<int> status(WW, 0);
      fflush(o); fflush(stdout); fflush(stderr);
      for (unsigned w = 0; w < WW; w++) {
        sh[w] = newshm(); std::string rp = strf("%s/w%u.res", tmpdir.c_str(), w); unlink(rp.c_str());
        pid[w] = fork(); if (pid[w] < 0) { perror("fork"); return 2; }
        if (pid[w] == 0) {
          int fd = open(strf("%s/w%u.err", tmpdir.c_str(), w).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
          cur_shm = sh[w]; signal(SIGPROF, on_prof); Result r; FILE* dg = digest.empty() ? nullptr : fopen(strf("%s.%s.%u", digest.c_str(), t.name, w).c_str(), "w");
          if (p.guided) worker_guided(t, n, w, WW, deadline, r); else worker_plain(t, n, w, WW, deadline, r, dg);
          if (dg) fclose(dg); save(r, rp); sh[w]->done = 1; _exit(0);
        }
      }
      bool failing = false;
      for (unsigned left = WW; left;) {
        int st; pid_t q = waitpid(-1, &st, 0); if (q < 0) { if (errno == EINTR) continue; break; }
        for (unsigned w = 0; w < WW; w++) if (pid[w] == q && alive[w]) { alive[w] = 0; status[w] = st; left--; 
          bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0); if (!bad) { Result r; if (load(r, strf("%s/w%u.res", tmpdir.c_str(), w)) && r.failed) bad = true; }
          if (bad && !failing) { failing = true; for (unsigned x = 0; x < WW; x++) if (alive[x]) kill(pid[x], SIGKILL); } else if (bad) {} }
      }
      Result total; std::vector<Result> fails; bool infra = false;
      for (unsigned w = 0; w < WW; w++) {
        Result r; bool ok = load(r, strf("%s/w%u.res", tmpdir.c_str(), w)); int st = status[w];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && ok) { if (r.failed) { r.worker = w; fails.push_back(r); } }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { if (!failing) infra = true; ok = false; }
        else { Result c; c.failed = true; c.kind = "crash"; c.worker = w; c.fidx = sh[w]->idx; c.fcase = shm_case(sh[w]); c.fmsg = describe_status(st, sh[w], slurp_tail(strf("%s/w%u.err", tmpdir.c_str(), w))); fails.push_back(c); ok = false; }
        if (ok) { total.cases += r.cases; total.discards += r.discards; total.ntcases += r.ntcases; total.nts.insert(r.nts.begin(), r.nts.end()); for (auto& l : r.labels) total.labels[l.first] += l.second; for (size_t k = 0; k < r.samples.size() && k < 3; k++) if (total.samples.size() < 8) total.samples.push_back(r.samples[k]); total.edges = std::max(total.edges, r.edges); total.corpus += r.corpus; total.deadline |= r.deadline; }
      }
      // the first worker that was killed because nothing else failed -> infrastructure problem
      if (failing && fails.empty()) infra = true;
      std::string frep, fmsg, fmode; bool confirmed = false; unsigned steps = 0;
      if (!fails.empty()) {
        std::sort(fails.begin(), fails.end(), [](const Result& a, const Result& b) { return a.fidx < b.fidx; });
        for (auto& f : fails) {
          std::string m; int bad = 0; for (int k = 0; k < 2; k++) bad += child_fails(t, f.fcase, m, nullptr);
          if (bad == 2) { Case c = nofail ? f.fcase : shrink(t, f.fcase, m, 15, &steps); frep = strf("%s/%s-%s-%s.json", replaydir.empty() ? tmpdir.c_str() : replaydir.c_str(), t.prop, t.name, g_variant); fmode = "tape"; fmsg = m; write_replay(frep, t, c, m, "tape", n, f.worker, WW, f.fidx, p.guided); confirmed = true; break; }
          int hb = 0; std::string hm; for (int k = 0; k < 3 && hb < 1; k++) hb += history_fails(t, n, f.worker, WW, f.fidx, p.guided, hm);
          if (hb) {
            // shorten the history: find a later starting point is not possible with strided workers; keep as is
            frep = strf("%s/%s-%s-%s.json", replaydir.empty() ? tmpdir.c_str() : replaydir.c_str(), t.prop, t.name, g_variant); fmode = "history"; fmsg = hm.empty() ? f.fmsg : hm; write_replay(frep, t, f.fcase, fmsg, "history", n, f.worker, WW, f.fidx, p.guided); confirmed = true; break; }
        }
      }
      for (auto s : sh) munmap(s, sizeof(Shm));
      fprintf(o, "%s\n{\"test\":\"%s\",\"variant\":\"%s\",\"guided\":%s,\"planned\":%llu,\"cases\":%llu,\"discards\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"edges\":%llu,\"corpus\":%llu,\"deadline\":%s,\"wall\":%.2f,\"infra\":%s", first ? "" : ",", t.name, g_variant, p.guided ? "true" : "false", (unsigned long long)n, (unsigned long long)total.cases, (unsigned long long)total.discards, (unsigned long long)total.ntcases, (unsigned long long)total.nts.size(), (unsigned long long)total.edges, (unsigned long long)total.corpus, total.deadline ? "true" : "false", now() - t0, infra ? "true" : "false");
      first = false;
      fprintf(o, ",\"labels\":{"); bool f2 = true; for (auto& l : total.labels) { fprintf(o, "%s\"%s\":%llu", f2 ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); f2 = false; } fprintf(o, "}");
      fprintf(o, ",\"samples\":["); for (size_t i = 0; i < total.samples.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(total.samples[i]).c_str()); fprintf(o, "]");
      if (!fails.empty()) fprintf(o, ",\"failure\":{\"confirmed\":%s,\"message\":\"%s\",\"first_message\":\"%s\",\"replay\":\"%s\",\"mode\":\"%s\",\"shrink_steps\":%u}", confirmed ? "true" : "false", jesc(fmsg).c_str(), jesc(fails[0].fmsg).c_str(), jesc(frep).c_str(), fmode.c_str(), steps);
      fprintf(o, "}"); fflush(o);
      if (infra) rc = rc ? rc : 2;
      if (confirmed) { rc = 1; }
      else if (!fails.empty()) { rc = rc ? rc : 3; }
      if (confirmed) goto end;
    }
  }
end:
  fprintf(o, "\n]}\n"); if (o != stdout) fclose(o);
  return rc;
}
