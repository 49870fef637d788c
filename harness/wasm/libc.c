/* Minimal C library for the WebAssembly build under test. */
#include <stddef.h>
#include <stdint.h>
extern void vf_exit_host(int code);
extern void vf_freed(int ptr, int size, int dirty);        /* told before a block is released: how many bytes of it are non-zero */
extern void vf_alloced(int ptr, int size);
int errno; void *stdout, *stderr, *stdin;
void* memcpy(void* d, const void* s, size_t n) { unsigned char* a = d; const unsigned char* b = s; while (n--) *a++ = *b++; return d; }
void* memmove(void* d, const void* s, size_t n) { unsigned char* a = d; const unsigned char* b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void* memset(void* d, int c, size_t n) { unsigned char* a = d; while (n--) *a++ = (unsigned char)c; return d; }
void explicit_bzero(void* d, size_t n) { memset(d, 0, n); }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
void* memchr(const void* x, int c, size_t n) { const unsigned char* a = x; for (; n--; a++) if (*a == (unsigned char)c) return (void*)a; return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n--; a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
_Noreturn void exit(int c) { vf_exit_host(c); __builtin_trap(); }
_Noreturn void abort(void) { vf_exit_host(134); __builtin_trap(); }
_Noreturn void __assert_fail(const char* a, const char* f, unsigned l, const char* fn) { vf_exit_host(135); __builtin_trap(); }
int printf(const char* f, ...) { return 0; } int fprintf(void* s, const char* f, ...) { return 0; } int snprintf(char* b, size_t n, const char* f, ...) { if (n) *b = 0; return 0; } int puts(const char* s) { return 0; } int fflush(void* f) { return 0; } void perror(const char* s) {}
/* blocks of a first-fit free list with 16-byte headers; fresh and freed memory is filled with a pattern */
typedef struct Blk { size_t size, used; struct Blk* next; size_t user; } Blk;
extern unsigned char __heap_base; static Blk* head; static uintptr_t top;
void* malloc(size_t n) {
  size_t user = n; n = (n + 31) & ~(size_t)15; if (n < user) return 0;
  for (Blk* b = head; b; b = b->next) if (!b->used && b->size == n) { b->used = 1; b->user = user; memset(b + 1, 0xCD, n); vf_alloced((int)(b + 1), (int)user); return b + 1; }
  if (!top) top = ((uintptr_t)&__heap_base + 15) & ~(uintptr_t)15;
  uintptr_t need = top + sizeof(Blk) + n; if (need < top) return 0;
  size_t pages = __builtin_wasm_memory_size(0); if (need > pages * 65536u) { size_t more = (need - pages * 65536u + 65535u) / 65536u; if (__builtin_wasm_memory_grow(0, more) == (size_t)-1) return 0; }
  Blk* b = (Blk*)top; top = need; b->size = n; b->used = 1; b->user = user; b->next = head; head = b; memset(b + 1, 0xCD, n); vf_alloced((int)(b + 1), (int)user); return b + 1;
}
void free(void* p) { if (!p) return; Blk* b = (Blk*)p - 1; int dirty = 0; for (size_t i = 0; i < b->user; i++) dirty += ((unsigned char*)p)[i] != 0; vf_freed((int)p, (int)b->user, b->used ? dirty : -1); b->used = 0; memset(p, 0xDD, b->size); }
void* calloc(size_t a, size_t b) { void* p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* aligned_alloc(size_t a, size_t n) { return malloc(n); }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); Blk* b = (Blk*)p - 1; void* q = malloc(n); if (!q) return 0; memcpy(q, p, b->user < n ? b->user : n); free(p); return q; }
