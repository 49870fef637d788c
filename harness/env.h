// Environment of the library under test: every libc entry point it can use to obtain randomness, memory or
// files is renamed (objcopy --redefine-sym) to a vf_ function defined in env.cpp and steered from here.
#pragma once
#include "engine.h"

// ---------------------------------------------------------------- guarded buffers
// The data sits flush against an inaccessible page (right- or left-aligned); the slack is filled with canaries.
struct GBuf {
  uint8_t* p = nullptr; size_t n = 0;
  GBuf() {}
  explicit GBuf(size_t n, uint8_t fill = 0xA5, bool left = false);
  explicit GBuf(const Bytes& b, bool readonly = true, bool left = false);
  GBuf(const uint8_t* d, size_t n, bool readonly = true, bool left = false);
  GBuf(GBuf&& o) noexcept { *this = std::move(o); }
  GBuf& operator=(GBuf&& o) noexcept { std::swap(p, o.p); std::swap(n, o.n); std::swap(base, o.base); std::swap(map, o.map); std::swap(slot, o.slot); std::swap(leftal, o.leftal); return *this; }
  GBuf(const GBuf&) = delete;
  ~GBuf();
  operator uint8_t*() const { return p; }
  Bytes get() const { return Bytes(p, p + n); }
  bool canary_ok() const;
  void check(const char* what) const { CHECK(canary_ok(), "write outside the %s buffer", what); }
  void readonly(); void writable();
  bool is(const Bytes& b) const { return b.size() == n && (n == 0 || !memcmp(p, b.data(), n)); }
  bool all(uint8_t v) const { for (size_t i = 0; i < n; i++) if (p[i] != v) return false; return true; }
 private:
  uint8_t* base = nullptr; size_t map = 0; int slot = -1; bool leftal = false;
  void alloc(size_t n, bool left);
};

// ---------------------------------------------------------------- random source
enum RngOp { RNG_FULL, RNG_SHORT, RNG_EINTR, RNG_ERR };
struct RngStep { RngOp op; size_t n; int err; };
struct RngEnv {
  std::vector<RngStep> plan; size_t pos = 0;     // consumed one per request; afterwards `rest`
  RngStep rest{RNG_FULL, 0, 0};
  Bytes queue; size_t qpos = 0;                  // bytes to serve first
  Prng src;                                      // then this stream
  bool scribble = false;                         // on failure, still write garbage into part of the buffer (as a kernel may)
  Bytes served;                                  // everything handed out, in order
  struct Req { size_t asked; long ret; int err; }; std::vector<Req> log;
  unsigned idle = 0;                             // requests that delivered nothing
  bool insecure = false;                         // asked with GRND_INSECURE
  bool pattern = false;                          // serve 0xEE and keep no record (requests of gigabytes)
  void serve(uint8_t* p, size_t n);
};
extern thread_local RngEnv rng_env;
void rng_seed(uint64_t s);                       // fresh stream, no faults, empty log
void rng_queue(const Bytes& b);                  // serve these bytes next

// ---------------------------------------------------------------- heap
struct HeapEnv { long live = 0; unsigned long allocs = 0; unsigned long fail_at = 0; bool failed = false; int poison = -1; bool exit_ok = false; bool freed_unknown = false; bool track = false; };
extern thread_local HeapEnv heap_env;
extern std::map<void*, size_t> heap_live;        // only when track is set (single threaded tests)

// ---------------------------------------------------------------- devices (the /dev/urandom configuration)
struct DevEnv {
  bool active = false;
  struct Open { int kind; bool open; }; std::vector<Open> fds;         // kind 0 urandom, 1 random, 2 proc
  // scripted behaviour; each vector is consumed one entry per call, then the default (success) applies
  std::vector<int> open_err, ioctl_err, poll_err, close_err, proc_err, proc_open_err; size_t io = 0, ii = 0, ip = 0, ic = 0, ir = 0, ipo = 0;
  struct Rd { int err; size_t n; bool eof; }; std::vector<Rd> reads; size_t ird = 0; Rd rest{0, 0, false};
  std::vector<int> entropy; size_t ie = 0;       // values reported, last one repeats
  std::vector<int> proc_text; size_t it = 0; int text_rest = 0;   // per reading of the proc file: 0 number, 1 empty, 2 no number
  int base = 1000;                               // first descriptor handed out
  int unexpected = 0; unsigned calls = 0, idle = 0; unsigned eof_served = 0, read_calls = 0;
  int bad_close = 0;
  long open_count() const { long c = 0; for (auto& f : fds) c += f.open; return c; }
};
extern DevEnv dev_env;

// ---------------------------------------------------------------- Windows stand-ins
struct WinEnv { unsigned idle = 0; int gen1_fail_from = -1, gen2_fail_from = -1; bool acquire_fail = false, release_fail = false, scribble = false; int gen1 = 0, gen2 = 0; long handles = 0; int bad = 0; };
extern WinEnv win_env;

// ---------------------------------------------------------------- uninitialised-memory detector (no-ops unless VF_MSAN)
void msan_poison(void* p, size_t n); void msan_unpoison(const void* p, size_t n); void msan_check(const void* p, size_t n); void msan_params(); void msan_harness(bool in);
