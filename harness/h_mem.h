// Live heap accounting: every allocation of the process is counted (plain builds only).
#pragma once
#include <atomic>
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}
#define VH_HMEM 1
namespace hmem {
inline std::atomic<int64_t> bytes{0}, blocks{0}, allocs{0};
inline void* in(void* p) {
  if (p) {
    bytes.fetch_add((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
    blocks.fetch_add(1, std::memory_order_relaxed);
    allocs.fetch_add(1, std::memory_order_relaxed);
  }
  return p;
}
inline void out(void* p) {
  if (p) {
    bytes.fetch_sub((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
    blocks.fetch_sub(1, std::memory_order_relaxed);
  }
}
}  // namespace hmem
extern "C" {
void* malloc(size_t n) { return hmem::in(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return hmem::in(__libc_calloc(a, b)); }
void free(void* p) {
  hmem::out(p);
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  hmem::out(p);
  void* q = __libc_realloc(p, n);
  if (!q && n) {
    hmem::in(p);
    return q;
  }
  return hmem::in(q);
}
int posix_memalign(void** r, size_t a, size_t n) {
  void* p = hmem::in(__libc_memalign(a, n));
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void* memalign(size_t a, size_t n) { return hmem::in(__libc_memalign(a, n)); }
// aligned_alloc: see tt.h
}
