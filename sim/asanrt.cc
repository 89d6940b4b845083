// Run-time behind -fsanitize=address,... instrumentation (flavour "asan"): shadow memory says which bytes exist; the simulator adds the
// arguments of the call in progress. Accesses of the assembly sources are checked by code inserted into them (tools/traceasm.py --check).
#include "core.h"
#include "libs.h"
#include "asan.h"
#include <sys/mman.h>
#include <unistd.h>
static const uintptr_t OFF = 0x7fff8000ull, LO = 0x7fff8000ull, HI = 0x10007fff8000ull; bool shadow_on;
static inline int8_t* sh(uintptr_t a) { return (int8_t*)((a >> 3) + OFF); }
void shadow_init() { if (shadow_on) return; void* p = mmap((void*)LO, HI - LO, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void*)LO) { fprintf(stderr, "no shadow memory\n"); _exit(5); } madvise(p, HI - LO, MADV_NOHUGEPAGE); shadow_on = true; }
void shadow_set(const void* p, size_t n, uint8_t v) {   // p is 8-aligned; v=0: exactly n bytes exist, otherwise whole granules are poisoned
  uintptr_t a = (uintptr_t)p; memset(sh(a), v, n / 8); if (n % 8) *sh(a + n) = v ? (int8_t)v : (int8_t)(n % 8); }
void shadow_clear_stack() { if (!shadow_on || !cur) return; uintptr_t lo = (uintptr_t)cur->stack, hi = (uintptr_t)__builtin_frame_address(0) & ~7ull; if (hi > lo) memset(sh(lo), 0, (hi - lo) / 8); }
static const char* what(uint8_t v) { switch (v) { case 0xf1: case 0xf2: case 0xf3: return "memory between the variables of a stack frame"; case 0xf8: return "a variable whose scope has ended"; case 0xf9: return "memory around a global variable"; case 0xfa: return "memory around the arguments of the call"; case 0xfb: return "an argument of an earlier call"; case 0xca: case 0xcb: return "memory around a variable-length array"; default: return "memory that is no object"; } }
[[noreturn]] static void bad(uintptr_t a, size_t n, const char* how, uintptr_t pc) { uintptr_t q = a; while (q < a + n) { int8_t s = *sh(q); if (s && (int8_t)(q & 7) >= s) break; q++; } uint8_t v = *sh(q); if (v && v < 8) v = *sh(q + 8); violation("outside-its-objects", "%s: %s of %zu bytes at %s touches %s", cur->opname, how, n, describe_pc(pc).c_str(), what(v)); }
static inline bool good(uintptr_t a, size_t n) { if (!n) return true; uintptr_t e = a + n - 1; int8_t s = *sh(e); if (s && (int8_t)(e & 7) >= s) return false; for (uintptr_t g = a & ~7ull; g < (e & ~7ull); g += 8) if (*sh(g)) return false; return true; }
static inline void chk(uintptr_t a, size_t n, const char* how, void* pc) { Task* t = cur; if (__builtin_expect(!t || !t->inlib, 0)) return; t->accesses++; if (__builtin_expect(!good(a, n), 0)) bad(a, n, how, (uintptr_t)pc); }
void shadow_range(uintptr_t a, unsigned n, bool w, void* pc) { chk(a, n, w ? "write" : "read", pc); }
#define PC __builtin_return_address(0)
struct Glob { uintptr_t beg, size, full; const char* name; const char* mod; uintptr_t dyn, loc, odr; };
extern "C" {
void __asan_init() { shadow_init(); } void __asan_version_mismatch_check_v8() {} void __asan_handle_no_return() {}
void __asan_before_dynamic_init(const char*) {} void __asan_after_dynamic_init() {}
void __asan_register_globals(Glob* g, size_t n) { for (size_t i = 0; i < n; i++) { uintptr_t a = (g[i].beg + g[i].size + 7) & ~7ull; if (a < g[i].beg + g[i].full) shadow_set((void*)a, g[i].beg + g[i].full - a, 0xf9); if (g[i].size % 8) *sh(g[i].beg + g[i].size) = g[i].size % 8; } }
void __asan_unregister_globals(Glob* g, size_t n) { for (size_t i = 0; i < n; i++) shadow_set((void*)g[i].beg, g[i].full, 0); }
#define A(n) void __asan_load##n(uintptr_t a) { chk(a, n, "read", PC); } void __asan_store##n(uintptr_t a) { chk(a, n, "write", PC); } \
  void __asan_load##n##_noabort(uintptr_t a) { chk(a, n, "read", PC); } void __asan_store##n##_noabort(uintptr_t a) { chk(a, n, "write", PC); } \
  void __asan_report_load##n(uintptr_t a) { if (cur && cur->inlib) bad(a, n, "read", (uintptr_t)PC); } void __asan_report_store##n(uintptr_t a) { if (cur && cur->inlib) bad(a, n, "write", (uintptr_t)PC); }
A(1) A(2) A(4) A(8) A(16)
void __asan_loadN(uintptr_t a, size_t n) { chk(a, n, "read", PC); } void __asan_storeN(uintptr_t a, size_t n) { chk(a, n, "write", PC); }
void __asan_loadN_noabort(uintptr_t a, size_t n) { chk(a, n, "read", PC); } void __asan_storeN_noabort(uintptr_t a, size_t n) { chk(a, n, "write", PC); }
void __asan_report_load_n(uintptr_t a, size_t n) { if (cur && cur->inlib) bad(a, n, "read", (uintptr_t)PC); } void __asan_report_store_n(uintptr_t a, size_t n) { if (cur && cur->inlib) bad(a, n, "write", (uintptr_t)PC); }
void __asan_poison_stack_memory(uintptr_t a, size_t n) { shadow_set((void*)a, n, 0xf8); } void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { shadow_set((void*)a, n, 0); }
void __asan_alloca_poison(uintptr_t a, size_t n) { shadow_set((void*)(a - 32), 32, 0xca); uintptr_t e = (a + n + 7) & ~7ull; if (n % 8) *sh(a + n) = n % 8; shadow_set((void*)e, ((a + n + 31) & ~31ull) + 32 - e, 0xcb); }
void __asan_allocas_unpoison(uintptr_t top, uintptr_t bottom) { if (top && top < bottom) memset(sh(top), 0, (bottom - top) / 8); }
// the check inserted into assembly: called with every register live; on a wrong access control does not return
void sim_asm_bad(uintptr_t a, size_t n, uintptr_t pc) { if (cur && cur->inlib) bad(a, n, "access", pc); }
// undefined operations; every handler's first argument starts with the source position
struct Pos { const char* f; uint32_t l, c; };
static void ub(Pos* p, const char* what) { if (!cur || !cur->inlib) return; const char* b = strrchr(p->f, '/'); violation("undefined-operation", "%s: %s at %s:%u:%u", cur->opname, what, b ? b + 1 : p->f, p->l, p->c); }
#define U(name, text) void __ubsan_handle_##name(Pos* p) { ub(p, text); } void __ubsan_handle_##name##_abort(Pos* p) { ub(p, text); }
U(out_of_bounds, "array index out of bounds") U(shift_out_of_bounds, "shift by more than the width of the type") U(divrem_overflow, "division by zero") U(vla_bound_not_positive, "array of no elements") U(builtin_unreachable, "end of a function without a value") U(invalid_builtin, "count of zero bits of zero") U(type_mismatch_v1, "access through a pointer to no object") U(pointer_overflow, "pointer arithmetic overflow") U(add_overflow, "overflow") U(sub_overflow, "overflow") U(mul_overflow, "overflow") U(negate_overflow, "overflow") U(nonnull_arg, "null argument") U(load_invalid_value, "invalid value") U(missing_return, "no value returned")
}
