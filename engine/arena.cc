// malloc() for the checker process. Allocations made by node code come from an
// arena that is dropped wholesale between executions, so executions that end
// early (pruned, deadlocked, crashed) leak nothing. Node memory is filled with a
// fixed pattern, so the use of uninitialised memory is deterministic.
#include "arena.h"

#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>

bool vmc_in_node = false;
int vmc_fill = 0xA5;

#if defined(__SANITIZE_ADDRESS__)
void vmc_arena_reset() {}
void vmc_arena_enable(bool) {}
#else
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
static bool on = false;
static char* base = nullptr;
static char* top = nullptr;
static const size_t kSize = 1ull << 32;

void vmc_arena_enable(bool v) {
  if (v && !base) {
    base = (char*)mmap(nullptr, kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == (char*)MAP_FAILED) { base = nullptr; return; }
    top = base;
  }
  on = v;
}
void vmc_arena_reset() {
  if (top && top - base > (64 << 20)) madvise(base + (64 << 20), top - base - (64 << 20), MADV_DONTNEED);
  top = base;
}
static inline bool mine(void* p) { return base && (char*)p >= base && (char*)p < base + kSize; }
static void* grab(size_t n, size_t align) {
  if (align < 16) align = 16;
  uintptr_t p = ((uintptr_t)top + 16 + align - 1) & ~(uintptr_t)(align - 1);
  if (p + n > (uintptr_t)base + kSize) { errno = ENOMEM; return nullptr; }
  ((size_t*)p)[-1] = n;
  top = (char*)p + n;
  memset((void*)p, vmc_fill, n);
  return (void*)p;
}
extern "C" {
void* malloc(size_t n) { return on && vmc_in_node ? grab(n, 16) : __libc_malloc(n); }
void free(void* p) {
  if (!p || mine(p)) return;
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!(on && vmc_in_node)) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = grab(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!mine(p)) return __libc_realloc(p, n);
  void* q = malloc(n);
  size_t o = ((size_t*)p)[-1];
  if (q) memcpy(q, p, o < n ? o : n);
  return q;
}
void* memalign(size_t a, size_t n) { return on && vmc_in_node ? grab(n, a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n) {
  void* p = memalign(a, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
}
#endif
