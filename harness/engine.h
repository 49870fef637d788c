// Miniature property-based testing engine.
//
// A test is a function void(Gen&).  Every random decision is a draw recorded on a tape, so a failing case is
// a list of integers: it can be replayed, shrunk (deleting and lowering draws) and mutated (coverage-guided
// mode).  Cases run in forked workers, so crashes, sanitizer aborts and hangs are failures like any other.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::vector<uint8_t> Bytes;

struct Failure { std::string msg; };
struct Discard {};
[[noreturn]] void failf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) failf(__VA_ARGS__); } while (0)

std::string hex(const uint8_t* p, size_t n, size_t max = 24);
inline std::string hex(const Bytes& b, size_t max = 24) { return hex(b.data(), b.size(), max); }
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

inline uint64_t mix64(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
uint64_t hash64(const void* p, size_t n, uint64_t seed = 0);
inline uint64_t hash64(const Bytes& b, uint64_t s = 0) { return hash64(b.data(), b.size(), s); }
inline uint64_t hash64(const std::string& b, uint64_t s = 0) { return hash64(b.data(), b.size(), s); }

struct Prng {
  uint64_t s[2];
  explicit Prng(uint64_t seed = 0) { s[0] = mix64(seed); s[1] = mix64(s[0] ^ 0x1234567); if (!s[0] && !s[1]) s[0] = 1; }
  uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; }
  void fill(uint8_t* p, size_t n) { while (n >= 8) { uint64_t v = next(); memcpy(p, &v, 8); p += 8; n -= 8; } if (n) { uint64_t v = next(); memcpy(p, &v, n); } }
};

struct Override { uint32_t buf, pos; Bytes val; };   // forced content of the buf-th generated buffer

struct Case {                      // one input
  std::vector<uint64_t> tape;
  std::vector<Override> over;
};

struct Gen {
  // --- drawing
  uint64_t u(uint64_t n);                        // [0,n); 0 is the simplest
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + u(hi - lo + 1); }
  uint64_t u64();
  bool chance(unsigned num, unsigned den) { return u(den) >= den - num; }   // shrinks to false
  uint64_t sweep(uint64_t n);                    // systematic: consecutive cases walk through 0..n-1
  template <class T> const T& pick(const std::vector<T>& v) { return v[u(v.size())]; }
  size_t len(size_t lo, size_t hi, const std::vector<size_t>& marks = {});  // biased to bounds and marks+-1
  Bytes bytes(size_t n);                         // structured content (constant, patterned, sparse, random, edited)
  Bytes rnd(size_t n);                           // uniformly random content from one draw
  void splice(Bytes& b) { if (guided) { mattag.resize(mat.size() + 1); mattag.back() = ++nsplice; } applyOver(b); }   // a computed input: only the coverage-guided mode may overwrite parts of it
  // --- reporting
  void label(const std::string& l) { labels[l]++; }
  void nontrivial(uint64_t h) { nt = true; nth = mix64(nth ^ h); }
  void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void digest(const void* p, size_t n) { dig = hash64(p, n, dig); hasdig = true; }
  [[noreturn]] void discard() { throw Discard(); }
  // --- state
  Case in, out; bool replay = false; Prng prng; size_t pos = 0; uint64_t idx = 0, sweep_idx = 0;
  bool guided = false;
  std::vector<Bytes> mat;                        // materialised buffers (guided mode)
  std::vector<int> mattag; int nsplice = 0;      // which of them are finished inputs (splice), numbered
  uint32_t nbuf = 0;
  std::map<std::string, uint64_t> labels; bool nt = false; uint64_t nth = 0; std::string text; uint64_t dig = 0; bool hasdig = false;
  void applyOver(Bytes& b);
 private:
  uint64_t raw(uint64_t n, bool sw = false);
};

struct Plan { const char* variant; uint64_t quick, thorough; bool guided; };
typedef void (*TestFn)(Gen&);
struct Test {
  const char *prop, *name; TestFn fn; std::vector<Plan> plans; bool same = false; unsigned workers = 8; double cpu = 40; bool nofork = false; const char* note = "";
  Test& on(const char* v, uint64_t q, uint64_t t) { plans.push_back({v, q, t, false}); return *this; }
  Test& guided(const char* v, uint64_t q, uint64_t t) { plans.push_back({v, q, t, true}); return *this; }
  Test& samecases() { same = true; return *this; }
  Test& cpulimit(double s) { cpu = s; return *this; }
  Test& maxworkers(unsigned w) { workers = w; return *this; }
};
Test& reg(const char* prop, const char* name, TestFn fn);
struct Reg { template <class F> Reg(F f) { f(); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define REGISTER static Reg CAT(reg_, __LINE__) = []()

extern uint64_t g_seed;            // VERIF_SEED
extern const char* g_variant;
extern bool g_thorough;
// dictionary of interesting constants (static + collected from comparisons in coverage builds)
extern std::vector<uint64_t> g_dict;
// the message a harness callback wants to raise when it cannot throw (called from library context)
[[noreturn]] void die_in_library(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// run f in a forked child; returns wait status; used for tests that expect process termination
int run_in_child(void (*f)(void*), void* arg, double cpu_s);
