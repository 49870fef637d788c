#include "env.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstdio>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#ifdef VF_MSAN
// Only the library is instrumented.  Shadow state the uninstrumented harness would have to maintain (parameters, return
// values, freshly allocated memory) is set explicitly here.
extern "C" { void __msan_poison(const volatile void*, size_t); void __msan_unpoison(const volatile void*, size_t); void __msan_check_mem_is_initialized(const volatile void*, size_t); void __msan_scoped_disable_interceptor_checks(void); void __msan_scoped_enable_interceptor_checks(void);
extern __thread unsigned long long __msan_param_tls[100]; extern __thread unsigned long long __msan_retval_tls[100]; }
void msan_harness(bool in) { if (in) __msan_scoped_disable_interceptor_checks(); else __msan_scoped_enable_interceptor_checks(); }
static struct MsanInit { MsanInit() { msan_harness(true); } } msan_init_;         // string and memory functions are checked only in library calls
void msan_poison(void* p, size_t n) { __msan_poison(p, n); }
void msan_unpoison(const void* p, size_t n) { __msan_unpoison(p, n); }
void msan_check(const void* p, size_t n) { __msan_check_mem_is_initialized(p, n); }
void msan_params() { memset(__msan_param_tls, 0, sizeof __msan_param_tls); }
void msan_ret() { memset(__msan_retval_tls, 0, sizeof __msan_retval_tls); }
#else
void msan_poison(void*, size_t) {} void msan_unpoison(const void*, size_t) {} void msan_check(const void*, size_t) {} void msan_params() {} void msan_harness(bool) {}
void msan_ret() {}
#endif
#define RET() msan_ret()
#ifdef VF_MSAN
#define UNPOISON_ALL(p) msan_unpoison(p, malloc_usable_size(p))
#else
#define UNPOISON_ALL(p)
#endif

// ------------------------------------------------------------------------------------------------ GBuf
static const size_t PG = 4096;
struct Slot { uint8_t* base; bool used; bool ro; };
static const size_t SLOT_PAGES = 14;              // up to 57344 bytes: a full signature fits
static thread_local std::vector<Slot> slots;
static thread_local std::vector<int> freelist;
void GBuf::alloc(size_t len, bool left) {
  n = len; leftal = left;
  size_t need = (len + PG - 1) / PG * PG; if (!need) need = PG;
  if (need <= SLOT_PAGES * PG) {
    if (freelist.empty()) {
      uint8_t* b = (uint8_t*)mmap(nullptr, (SLOT_PAGES + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (b == MAP_FAILED) failf("harness: mmap failed");
      if (mprotect(b + PG, SLOT_PAGES * PG, PROT_READ | PROT_WRITE)) failf("harness: mprotect failed");
      slots.push_back({b, false, false}); freelist.push_back((int)slots.size() - 1);
    }
    slot = freelist.back(); freelist.pop_back(); base = slots[slot].base; map = SLOT_PAGES * PG;
    if (slots[slot].ro) { mprotect(base + PG, map, PROT_READ | PROT_WRITE); slots[slot].ro = false; }
  } else {
    map = need; base = (uint8_t*)mmap(nullptr, map + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) failf("harness: mmap failed");
    if (mprotect(base + PG, map, PROT_READ | PROT_WRITE)) failf("harness: mprotect failed");
  }
  p = left ? base + PG : base + PG + map - len;
  if (left) memset(p + len, 0xC7, std::min<size_t>(map - len, 256)); else memset(p - std::min<size_t>(map - len, 256), 0xC7, std::min<size_t>(map - len, 256));
}
bool GBuf::canary_ok() const {
  if (!p) return true;
  size_t k = std::min<size_t>(map - n, 256); const uint8_t* c = leftal ? p + n : p - k;
  for (size_t i = 0; i < k; i++) if (c[i] != 0xC7) return false;
  return true;
}
GBuf::GBuf(size_t len, uint8_t fill, bool left) { alloc(len, left); memset(p, fill, len); }
GBuf::GBuf(const Bytes& b, bool ro, bool left) { alloc(b.size(), left); if (b.size()) memcpy(p, b.data(), b.size()); if (ro) readonly(); }
GBuf::GBuf(const uint8_t* d, size_t len, bool ro, bool left) { alloc(len, left); if (len) memcpy(p, d, len); if (ro) readonly(); }
void GBuf::readonly() { mprotect(base + PG, map, PROT_READ); if (slot >= 0) slots[slot].ro = true; }
void GBuf::writable() { mprotect(base + PG, map, PROT_READ | PROT_WRITE); if (slot >= 0) slots[slot].ro = false; }
GBuf::~GBuf() { if (!p) return; if (slot >= 0) freelist.push_back(slot); else munmap(base, map + 2 * PG); p = nullptr; }

// ------------------------------------------------------------------------------------------------ random source
thread_local RngEnv rng_env;
void RngEnv::serve(uint8_t* p, size_t n) {
  if (pattern) { memset(p, 0xEE, n); return; }
  size_t i = 0;
  for (; i < n && qpos < queue.size(); i++) p[i] = queue[qpos++];
  if (i < n) src.fill(p + i, n - i);
  msan_unpoison(p, n); served.insert(served.end(), p, p + n);
}
void rng_seed(uint64_t s) { rng_env = RngEnv(); rng_env.src = Prng(mix64(s ^ 0x726e67)); }
void rng_queue(const Bytes& b) { rng_env.queue.erase(rng_env.queue.begin(), rng_env.queue.begin() + rng_env.qpos); rng_env.qpos = 0; rng_env.queue.insert(rng_env.queue.end(), b.begin(), b.end()); }

static ssize_t do_random(void* buf, size_t n, unsigned flags) {
  RngEnv& r = rng_env;
  if (r.idle > 100000) die_in_library("the random source was asked more than 100000 times in one case without delivering anything");
  RngStep s = r.pos < r.plan.size() ? r.plan[r.pos++] : r.rest;
  ssize_t ret; int err = 0; size_t asked = n; if (n > 33554431) n = 33554431;    // what Linux delivers at most in one call
  if (flags & 4) r.insecure = true;
  switch (s.op) {
    case RNG_EINTR: case RNG_ERR:
      err = s.op == RNG_EINTR ? EINTR : s.err; ret = -1;
      if (r.scribble && s.op == RNG_ERR && n) { memset(buf, 0x5C, n / 2); msan_unpoison(buf, n / 2); }
      break;
    case RNG_SHORT: { size_t k = n <= 1 ? n : 1 + (s.n % n); r.serve((uint8_t*)buf, k); ret = k; break; }
    default: r.serve((uint8_t*)buf, n); ret = n;
  }
  if (ret <= 0) r.idle++;
  if (!r.pattern) r.log.push_back({asked, (long)ret, err});
  if (ret < 0) errno = err;
  return ret;
}

// ------------------------------------------------------------------------------------------------ heap
thread_local HeapEnv heap_env;
std::map<void*, size_t> heap_live;
DevEnv dev_env; WinEnv win_env;
void env_reset_case(uint64_t seed) { rng_seed(seed); heap_env = HeapEnv(); heap_live.clear(); dev_env = DevEnv(); win_env = WinEnv(); }

#ifdef VF_CT
uint8_t* ct_heap = nullptr; size_t ct_heap_pos = 0;      // deterministic addresses: C27 resets the position before every run
static void* heap_new(size_t n, bool zero) {
  if (!ct_heap) ct_heap = (uint8_t*)mmap(nullptr, 1u << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uint8_t* p = ct_heap + ct_heap_pos; ct_heap_pos += (n + 31) / 16 * 16; if (ct_heap_pos > (1u << 30)) die_in_library("harness: arena exhausted"); if (zero) memset(p, 0, n); return p;
}
#define free(p) ((void)(p))
#else
static void* heap_new(size_t n, bool zero) {
  HeapEnv& h = heap_env; h.allocs++;
  if (h.fail_at && h.allocs == h.fail_at) { h.failed = true; errno = ENOMEM; return nullptr; }
  uint8_t* p = (uint8_t*)malloc(n ? n : 1); if (!p) die_in_library("harness: out of memory");
  if (zero) { memset(p, 0, n); msan_unpoison(p, n); } else { if (h.poison >= 0) memset(p, h.poison, n); msan_poison(p, n); }
  RET();
  h.live++; if (h.track) heap_live[p] = n;
  return p;
}
#endif

// ------------------------------------------------------------------------------------------------ interposed functions
static int next_of(std::vector<int>& v, size_t& i) { return i < v.size() ? v[i++] : 0; }
static int dev_open(const char* path) {
  DevEnv& d = dev_env; if (++d.calls, ++d.idle > 200000) die_in_library("more than 200000 device calls in one request");
  int e = next_of(d.open_err, d.io); if (e) { errno = e; return -1; }
  int kind = !strcmp(path, "/dev/urandom") ? 0 : !strcmp(path, "/dev/random") ? 1 : 2; if (kind == 2) d.unexpected++;
  d.fds.push_back({kind, true}); return d.base + (int)d.fds.size() - 1;
}
struct Cookie { int idx; bool served; };
static ssize_t ck_read(void* c, char* buf, size_t n) {
  DevEnv& d = dev_env; Cookie* k = (Cookie*)c; if (++d.calls, ++d.idle > 200000) die_in_library("more than 200000 device calls in one request");
  int e = next_of(d.proc_err, d.ir); if (e) { errno = e; return -1; }
  if (k->served) return 0;
  k->served = true; int tx = d.it < d.proc_text.size() ? d.proc_text[d.it++] : d.text_rest; if (tx == 1) return 0; if (tx == 2) { memcpy(buf, "n/a\n", 4); return 4; }
 int v = d.entropy.empty() ? 256 : d.entropy[std::min(d.ie, d.entropy.size() - 1)]; d.ie++;
  int len = snprintf(buf, n, "%d\n", v); return len;
}
static int ck_seek(void* c, off64_t* off, int) { ((Cookie*)c)->served = false; *off = 0; return 0; }
static int ck_close(void* c) { dev_env.fds[((Cookie*)c)->idx].open = false; free(c); return 0; }
extern "C" {
ssize_t vf_getrandom(void* buf, size_t n, unsigned flags) { ssize_t r = do_random(buf, n, flags); RET(); return r; }
int vf_getentropy(void* buf, size_t n) { if (n > 256) { errno = EIO; return -1; } ssize_t r = do_random(buf, n, 0); RET(); return r == (ssize_t)n ? 0 : -1; }
long vf_syscall(long nr, long a, long b, long c, long d, long e, long f) { if (nr == SYS_getrandom) { ssize_t r = do_random((void*)a, (size_t)b, (unsigned)c); RET(); return r; } return syscall(nr, a, b, c, d, e, f); }
void* vf_malloc(size_t n) { return heap_new(n, false); }
void* vf_calloc(size_t a, size_t b) { return heap_new(a * b, true); }
void* vf_aligned_alloc(size_t, size_t n) { return heap_new(n, false); }
void vf_free(void* p) { if (!p) return; UNPOISON_ALL(p); heap_env.live--; if (heap_env.track) { if (!heap_live.erase(p)) heap_env.freed_unknown = true; } free(p); }
void* vf_realloc(void* p, size_t n) {
  if (!p) return heap_new(n, false);
  HeapEnv& h = heap_env; h.allocs++; if (h.fail_at && h.allocs == h.fail_at) { h.failed = true; errno = ENOMEM; return nullptr; }
  if (h.track) heap_live.erase(p);
#ifdef VF_CT
  void* q = heap_new(n, false); memcpy(q, p, n);
#else
  void* q = realloc(p, n ? n : 1);
#endif
 if (h.track) heap_live[q] = n;
  return q;
}
void vf_exit(int c) { if (heap_env.exit_ok) _exit(c); die_in_library("the library called exit(%d)", c); }
void vf_abort(void) { if (heap_env.exit_ok) _exit(134); die_in_library("the library called abort()"); }
void vf___assert_fail(const char* a, const char* f, unsigned l, const char*) { die_in_library("assertion failed in the library: %s (%s:%u)", a, f, l); }
int vf_open(const char* path, int flags, ...) { (void)flags; return dev_open(path); }
int vf_open64(const char* path, int flags, ...) { (void)flags; return dev_open(path); }
int vf_openat(int, const char* path, int, ...) { return dev_open(path); }
ssize_t vf_read(int fd, void* buf, size_t n) {
  DevEnv& d = dev_env; if (++d.calls, ++d.idle > 200000) die_in_library("more than 200000 device calls in one request (read loop does not end)"); d.read_calls++;
  if (fd < d.base || fd - d.base >= (int)d.fds.size() || !d.fds[fd - d.base].open) { errno = EBADF; return -1; }
  if (d.fds[fd - d.base].kind == 2) { errno = EINVAL; return -1; }
  DevEnv::Rd r = d.ird < d.reads.size() ? d.reads[d.ird++] : d.rest;
  if (r.eof) { d.eof_served++; if (d.eof_served > 1000) die_in_library("the request never ends when the random device reports end of file"); return 0; }
  if (r.err) { errno = r.err; return -1; }
  size_t k = r.n && n ? 1 + (r.n - 1) % n : n; if (k > n) k = n; rng_env.serve((uint8_t*)buf, k); if (!rng_env.pattern) rng_env.log.push_back({n, (long)k, 0}); if (k) d.idle = 0; return k;
}
int vf_close(int fd) {
  DevEnv& d = dev_env; if (++d.calls, ++d.idle > 200000) die_in_library("more than 200000 device calls in one request");
  if (fd < d.base || fd - d.base >= (int)d.fds.size() || !d.fds[fd - d.base].open) { d.bad_close++; errno = EBADF; return -1; }
  int e = next_of(d.close_err, d.ic); d.fds[fd - d.base].open = false; if (e) { errno = e; return -1; } return 0;   // Linux always releases the descriptor
}
int vf_poll(struct pollfd* p, nfds_t n, int) {
  DevEnv& d = dev_env; if (++d.calls, ++d.idle > 200000) die_in_library("more than 200000 device calls in one request");
  int e = next_of(d.poll_err, d.ip); if (e) { errno = e; return -1; }
  for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return (int)n;
}
int vf_ioctl(int fd, unsigned long, void* arg) {
  DevEnv& d = dev_env; if (++d.calls, ++d.idle > 200000) die_in_library("more than 200000 device calls in one request");
  if (fd < d.base || fd - d.base >= (int)d.fds.size() || !d.fds[fd - d.base].open) { errno = EBADF; return -1; }
  int e = next_of(d.ioctl_err, d.ii); if (e) { errno = e; return -1; }
  int v = d.entropy.empty() ? 256 : d.entropy[std::min(d.ie, d.entropy.size() - 1)]; d.ie++; *(int*)arg = v; return 0;
}
FILE* vf_fopen(const char* path, const char*) {
  DevEnv& d = dev_env; if (++d.calls, ++d.idle > 200000) die_in_library("more than 200000 device calls in one request");
  int e = next_of(d.proc_open_err, d.ipo); if (e) { errno = e; return nullptr; }
  if (!strstr(path, "entropy_avail")) d.unexpected++;
  d.fds.push_back({2, true}); Cookie* c = (Cookie*)malloc(sizeof(Cookie)); c->idx = (int)d.fds.size() - 1; c->served = false;
  cookie_io_functions_t io = {ck_read, nullptr, ck_seek, ck_close}; FILE* f = fopencookie(c, "r", io); return f;
}
FILE* vf_fopen64(const char* p, const char* m) { return vf_fopen(p, m); }
void vf_arc4random_buf(void* p, size_t n) { rng_env.serve((uint8_t*)p, n); rng_env.log.push_back({n, (long)n, 0}); }
int32_t vf_win_gen1(void*, uint8_t* p, uint32_t n, uint32_t) { WinEnv& w = win_env; ++w.gen1; if (w.gen1_fail_from >= 0 && w.gen1 > w.gen1_fail_from) { if (++w.idle > 100000) die_in_library("BCryptGenRandom is called without end"); if (w.scribble) memset(p, 0x5C, n / 2); return (int32_t)0xC0000001; } rng_env.serve(p, n); return 0; }
int vf_win_acquire(uintptr_t* h, const char*, const char*, uint32_t, uint32_t) { WinEnv& w = win_env; if (w.acquire_fail) return 0; w.handles++; *h = 0x77; return 1; }
int vf_win_gen2(uintptr_t h, uint32_t n, uint8_t* p) { WinEnv& w = win_env; if (h != 0x77 || w.handles < 1) w.bad++; ++w.gen2; if (w.gen2_fail_from >= 0 && w.gen2 > w.gen2_fail_from) { if (++w.idle > 100000) die_in_library("CryptGenRandom is called without end"); if (w.scribble) memset(p, 0x5C, n / 2); return 0; } rng_env.serve(p, n); return 1; }
int vf_win_release(uintptr_t h, uint32_t) { WinEnv& w = win_env; if (h != 0x77 || w.handles < 1) { w.bad++; return 0; } w.handles--; return !w.release_fail; }
}
