// Run-time behind -fsanitize=thread instrumentation: every memory access of the library becomes a scheduling point.
#include "core.h"
#include "libs.h"
namespace sim { uint64_t hot_skip = 0; bool hot_enabled = false;
static uint64_t access_total;
static inline void acc(uintptr_t a, unsigned n, bool w, void* pc) {
  Task* t = cur; if (__builtin_expect(!t || !t->inlib, 0)) return; t->accesses++;
  if (access_hook) access_hook(a, n, w, pc);
  if (t->slice > 0 && --t->slice == 0) on_slice_end(t);
}
void mem_access(uintptr_t a, unsigned n, bool w) { acc(a, n, w, __builtin_return_address(0)); }
}
void (*cmp_hook)(const void*, const void*, size_t, size_t);
static size_t firstdiff(const void* a, const void* b, size_t n) { size_t i = 0; while (i < n && ((const uint8_t*)a)[i] == ((const uint8_t*)b)[i]) i++; return i; }
#define PC __builtin_return_address(0)
#define V(x) __attribute__((visibility("default"))) x
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (cur && cur->inlib && func_hook) func_hook(pc); }
void __tsan_func_exit() {}
#define A(n) void __tsan_read##n(void* p) { acc((uintptr_t)p, n, false, PC); } void __tsan_write##n(void* p) { acc((uintptr_t)p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { acc((uintptr_t)p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { acc((uintptr_t)p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { acc((uintptr_t)p, n, false, PC); } void __tsan_volatile_write##n(void* p) { acc((uintptr_t)p, n, true, PC); } \
  void __tsan_read##n##_pc(void* p, void* pc) { acc((uintptr_t)p, n, false, pc); } void __tsan_write##n##_pc(void* p, void* pc) { acc((uintptr_t)p, n, true, pc); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void* p, size_t n) { if (n) acc((uintptr_t)p, (unsigned)n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) acc((uintptr_t)p, (unsigned)n, true, PC); }
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T* a, int) { acc((uintptr_t)a, n / 8, false, PC); return *a; } void __tsan_atomic##n##_store(volatile T* a, T v, int) { acc((uintptr_t)a, n / 8, true, PC); *a = v; } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { acc((uintptr_t)a, n / 8, true, PC); T o = *a; *a = v; return o; } T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { acc((uintptr_t)a, n / 8, true, PC); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { acc((uintptr_t)a, n / 8, true, PC); T o = *a; *a = o - v; return o; } T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { acc((uintptr_t)a, n / 8, true, PC); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { acc((uintptr_t)a, n / 8, true, PC); T o = *a; *a = o | v; return o; } T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { acc((uintptr_t)a, n / 8, true, PC); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((uintptr_t)a, n / 8, true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, m, f); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int m, int f) { __tsan_atomic##n##_compare_exchange_strong(a, &c, v, m, f); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// block operations of instrumented code (the libraries are linked with --wrap for these in the tsan flavour)
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { acc((uintptr_t)s, (unsigned)n, false, PC); acc((uintptr_t)d, (unsigned)n, true, PC); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { acc((uintptr_t)s, (unsigned)n, false, PC); acc((uintptr_t)d, (unsigned)n, true, PC); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) acc((uintptr_t)d, (unsigned)n, true, PC); return memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n) { acc((uintptr_t)a, (unsigned)n, false, PC); acc((uintptr_t)b, (unsigned)n, false, PC); } if (cmp_hook) cmp_hook(a, b, n, firstdiff(a, b, n)); return memcmp(a, b, n); }
int __wrap_bcmp(const void* a, const void* b, size_t n) { return __wrap_memcmp(a, b, n); }
int __wrap_strcmp(const char* a, const char* b) { size_t n = 0; while (a[n] && a[n] == b[n]) n++; if (cmp_hook) cmp_hook(a, b, 0, n); return strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t m) { size_t n = 0; while (n < m && a[n] && a[n] == b[n]) n++; if (cmp_hook) cmp_hook(a, b, m, n); return strncmp(a, b, m); }
void* __wrap___memcpy_chk(void* d, const void* s, size_t n, size_t) { return __wrap_memcpy(d, s, n); }
void* __wrap___memmove_chk(void* d, const void* s, size_t n, size_t) { return __wrap_memmove(d, s, n); }
void* __wrap___memset_chk(void* d, int c, size_t n, size_t) { return __wrap_memset(d, c, n); }
}
