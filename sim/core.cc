#include "core.h"
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <dlfcn.h>
namespace sim {
Result* R; bool verbose; std::string prop, tier, builddir; bool replaying;
static std::vector<uint32_t> rtape; static uint64_t prng;
void load_tape(const std::vector<uint32_t>& t) { rtape = t; replaying = true; }
void seed_run(uint64_t s) { prng = s; replaying = false; }
static uint64_t pnext() { uint64_t z = (prng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
uint32_t draw(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v, p = R->ntape;
  if (p >= TAPEMAX) return 0;                       // tape full: benign from here on
  if (replaying) v = p < rtape.size() ? rtape[p] % n : 0;
  else { v = (uint32_t)((pnext() >> 32) * n >> 32); prng += (uint64_t)p << 20; }
  R->tape[p] = v; R->ntape = p + 1; return v;
}
uint64_t draw64() { uint64_t a = draw(0xffffffffu); return a << 32 | draw(0xffffffffu); }
bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
uint32_t rare(uint32_t n) { if (draw(4) != 3) return 0; return draw(n); }
uint64_t drawlog(uint64_t max) { if (!max) return 0; int bits = 64 - __builtin_clzll(max); int b = draw(bits + 1); if (!b) return 0; uint64_t lo = 1ull << (b - 1), hi = b >= 64 ? ~0ull : (1ull << b) - 1; if (hi > max) hi = max; uint64_t span = hi - lo + 1; uint64_t r = span > 0xfffffffeull ? draw64() % span : draw((uint32_t)span); return lo + r; }
void Rng::fill(void* p, size_t n) { uint8_t* b = (uint8_t*)p; while (n >= 8) { uint64_t x = next(); memcpy(b, &x, 8); b += 8; n -= 8; } if (n) { uint64_t x = next(); memcpy(b, &x, n); } }
Bytes rndblob(size_t n) { Bytes b(n); Rng r(draw64()); r.fill(b.data(), n); return b; }
Bytes blob(size_t n) {
  int k = draw(12); Bytes b(n); if (k < 5) { Rng r(draw64()); r.fill(b.data(), n); return b; }
  Rng r(draw64());
  switch (k) {
    case 5: break;                                                   // zeros
    case 6: std::fill(b.begin(), b.end(), 0xff); break;
    case 7: { uint8_t v = r.next(); std::fill(b.begin(), b.end(), v); } break;
    case 8: { size_t z = n ? r.below(n + 1) : 0; r.fill(b.data(), n); for (size_t i = 0; i < z; i++) b[i] = 0; } break;   // zero prefix
    case 9: for (auto& x : b) x = r.below(2); break;                   // low entropy
    case 10: { size_t i = n ? r.below(n) : 0; if (n) b[i] = 1 << r.below(8); } break;    // single bit
    case 11: { r.fill(b.data(), n); size_t h = n / 2; for (size_t i = 0; i < h; i++) b[h + i] = b[i]; } break;   // repeated half
  }
  return b;
}
// ---------------------------------------------------------------- log
int64_t& now() { return R->simtime; }
uint64_t hashbytes(const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; uint64_t h = 0xcbf29ce484222325ull ^ n; while (n >= 8) { uint64_t x; memcpy(&x, b, 8); h = (h ^ x) * 0x9FB21C651E98DF25ull; h ^= h >> 32; b += 8; n -= 8; } while (n--) { h = (h ^ *b++) * 0x100000001b3ull; } return h ^ (h >> 29); }
static void vlog(bool hash, const char* fmt, va_list ap) {
  char b[600]; int n = vsnprintf(b, sizeof b, fmt, ap); if (n > (int)sizeof b - 1) n = sizeof b - 1;
  if (hash) { R->hash = (R->hash ^ hashbytes(b, n)) * 0x9FB21C651E98DF25ull; R->hash ^= R->hash >> 31; R->nev++; }
  if (verbose && R->nlog + n + 40 < sizeof R->log) { R->nlog += snprintf(R->log + R->nlog, sizeof R->log - R->nlog, "%lld.%06lld %s%s\n", (long long)(R->simtime / 1000000), (long long)(R->simtime % 1000000), cur ? (cur->name + ": ").c_str() : "", b); }
}
void ev(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlog(true, fmt, ap); va_end(ap); }
void tr(const char* fmt, ...) { if (!verbose) return; va_list ap; va_start(ap, fmt); vlog(false, fmt, ap); va_end(ap); }
void sigmix(uint64_t x) { R->sig = (R->sig ^ x) * 0x9FB21C651E98DF25ull; R->sig ^= R->sig >> 29; }
void cnt(const char* name, int64_t v) {
  for (int i = 0; i < R->nstats; i++) if (!strncmp(R->stats[i].name, name, 55)) { R->stats[i].v += v; return; }
  if (R->nstats < 512) { Stat& s = R->stats[R->nstats++]; snprintf(s.name, sizeof s.name, "%s", name); s.v = v; }
}
void cntmax(const char* name, int64_t v) { for (int i = 0; i < R->nstats; i++) if (!strncmp(R->stats[i].name, name, 55)) { if (v > R->stats[i].v) R->stats[i].v = v; return; } cnt(name, v); }
void violation(const char* kind, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); snprintf(R->kind, sizeof R->kind, "%s", kind); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
  ev("VIOLATION %s: %s", kind, R->msg); R->state = 2; _exit(0);
}
void internal_error(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap); R->state = 3; _exit(3); }
void finish_ok() { R->state = 1; _exit(0); }
void sample(const char* fmt, ...) { va_list ap; va_start(ap, fmt); size_t l = strlen(R->sample); if (l < sizeof R->sample - 2) { l += (size_t)snprintf(R->sample + l, sizeof R->sample - l, "%s", l ? "; " : ""); vsnprintf(R->sample + l, sizeof R->sample - l, fmt, ap); } va_end(ap); }
std::string hexs(const Bytes& b, size_t max) { std::string s = model::hex(b.data(), std::min(b.size(), max)); if (b.size() > max) s += "..(" + std::to_string(b.size()) + ")"; return s; }
// ---------------------------------------------------------------- tasks
Task* cur; static std::vector<Task*> tasks; static void* main_sp; static int main_errno;
std::function<int64_t(Task*)> slice_policy; std::function<void(Task*)> on_slice_end = [](Task*) { yield_now(); };
std::string term_how;
extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15
  sub $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  mov %rsp,(%rdi)
  mov %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  add $8,%rsp
  pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_tramp
sim_tramp:
  mov %rbx,%rdi
  call sim_task_main
  ud2
)");
extern "C" void sim_tramp();
void tls_switch(Task* from, Task* to);               // libs.cc
static void switch_to_main() { Task* t = cur; t->errno_ = errno; tls_switch(t, nullptr); cur = nullptr; sim_switch(&t->sp, main_sp); errno = t->errno_; }
extern "C" void sim_task_main(Task* t) { errno = t->errno_; t->fn(); t->st = Task::DONE; switch_to_main(); __builtin_trap(); }
static const size_t STK = 512 << 10;
Task* spawn(const std::string& name, std::function<void()> fn) {
  Task* t = new Task; t->id = (int)tasks.size(); t->name = name; t->fn = fn; t->stacksz = STK;
  char* want = (char*)(0x200000000000ull + (uint64_t)t->id * (STK + 65536));
  char* p = (char*)mmap(want, STK + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) internal_error("task stack mmap");
  if (p != want) internal_error("task stack address");
  mprotect(p + 32768, STK, PROT_READ | PROT_WRITE); t->stack = p + 32768;
  uint64_t* sp = (uint64_t*)(t->stack + STK - 64); *--sp = 0; *--sp = 0; *--sp = (uint64_t)&sim_tramp;
  *--sp = 0; *--sp = (uint64_t)t; *--sp = 0; *--sp = 0; *--sp = 0; *--sp = 0;   // rbp rbx r12..r15
  *--sp = 0; uint32_t mx = 0x1f80; memcpy(sp, &mx, 4); uint16_t cw = 0x37f; memcpy((char*)sp + 4, &cw, 2);
  t->sp = sp; tasks.push_back(t); return t;
}
void yield_now() { switch_to_main(); }
bool block_until(void* what, int64_t t) { cur->st = Task::BLOCKED; cur->waiton = what; cur->wake = t; switch_to_main(); bool woken = cur->waiton == nullptr && cur->wake != -1; cur->wake = INT64_MAX; cur->waiton = nullptr; return woken; }
void block_on(void* what) { block_until(what, INT64_MAX); }
void wake_all(void* what) { for (Task* t : tasks) if (t->st == Task::BLOCKED && t->waiton == what) { t->st = Task::RUNNABLE; t->waiton = nullptr; } }
void sleep_until(int64_t w) { static int nobody; block_until(&nobody, w); }
void abandon_current() { cur->st = Task::ABANDONED; switch_to_main(); __builtin_trap(); }
void terminate_current(const char* how) { term_how = how; if (!cur || !cur->jb) violation("terminated", "the library terminated the process (%s) outside any call", how); _longjmp(*cur->jb, 1); }
bool stop_schedule; const std::vector<Task*>& all_tasks() { return tasks; }
void schedule() {
  stop_schedule = false;
  for (; !stop_schedule;) {
    std::vector<Task*> r; int64_t nw = INT64_MAX; bool blocked = false;
    for (Task* t : tasks) { if (t->st == Task::BLOCKED && t->wake != INT64_MAX) { if (t->wake <= now()) { t->st = Task::RUNNABLE; t->waiton = nullptr; t->wake = -1; } else nw = std::min(nw, t->wake); } if (t->st == Task::RUNNABLE) r.push_back(t); else if (t->st == Task::BLOCKED) blocked = true; }
    if (r.empty()) { if (nw != INT64_MAX) { now() = nw; continue; } if (blocked) violation("deadlock", "all remaining tasks are blocked forever"); break; }
    Task* t = r[draw((uint32_t)r.size())]; t->slice = slice_policy ? slice_policy(t) : 0; R->steps++; sigmix(t->id * 1000003ull + R->nev);
    if (verbose && r.size() > 1) tr("-> run %s", t->name.c_str());
    cur = t; tls_switch(nullptr, t); main_errno = errno; sim_switch(&main_sp, t->sp); errno = main_errno;
    if (t->st == Task::DONE) { munmap(t->stack - 32768, 0); }
  }
}
__attribute__((noinline)) void dirty_stack(uint64_t seed, int pattern) {
  char* sp = (char*)__builtin_frame_address(0); volatile uint64_t* p = (volatile uint64_t*)(((uintptr_t)sp - 65536) & ~63ull); size_t n = (65536 - 4096) / 8;
  uint64_t s = seed | 1;
  for (size_t i = 0; i < n; i++) { uint64_t v; s ^= s << 13; s ^= s >> 7; s ^= s << 17; switch (pattern) { case 0: v = s; break; case 1: v = 0; break; case 2: v = ~0ull; break; case 3: v = s & 0x0001000100010001ull; break; default: v = (uint64_t)p; } p[i] = v; }
}
// ---------------------------------------------------------------- signals
bool (*trap_hook)(void*); bool (*segv_hook)(void*, uintptr_t, bool);
std::string describe_pc(uintptr_t pc) { Dl_info i; if (dladdr((void*)pc, &i) && i.dli_fname) { const char* b = strrchr(i.dli_fname, '/'); char s[300]; snprintf(s, sizeof s, "%s!%s+0x%lx", b ? b + 1 : i.dli_fname, i.dli_sname ? i.dli_sname : "?", (unsigned long)(pc - (uintptr_t)(i.dli_saddr ? i.dli_saddr : i.dli_fbase))); return s; } return "?"; }
static void on_crash(int sig, siginfo_t* si, void* uc) {
  ucontext_t* u = (ucontext_t*)uc; uintptr_t pc = u->uc_mcontext.gregs[REG_RIP];
  if (sig == SIGSEGV && segv_hook && segv_hook(uc, (uintptr_t)si->si_addr, u->uc_mcontext.gregs[REG_ERR] & 2)) return;
  bool inlib = cur && cur->inlib;
  if (!inlib) internal_error("signal %d in the simulator itself at %s addr %p prop %s", sig, describe_pc(pc).c_str(), si->si_addr, prop.c_str());
  violation("crash", "signal %d (%s) in %s at %s, accessing %p", sig, strsignal(sig), cur->opname, describe_pc(pc).c_str(), sig == SIGSEGV || sig == SIGBUS ? si->si_addr : nullptr);
}
static void on_alarm(int, siginfo_t*, void* uc) { ucontext_t* u = (ucontext_t*)uc; uintptr_t pc = u->uc_mcontext.gregs[REG_RIP];
  if (cur && cur->inlib) { snprintf(R->kind, sizeof R->kind, "no-progress"); snprintf(R->msg, sizeof R->msg, "%s does not finish (CPU time limit of the run exceeded inside the call)", cur->opname); R->state = 2; _exit(0); }
  snprintf(R->msg, sizeof R->msg, "simulator ran out of CPU time at %s", describe_pc(pc).c_str()); R->state = 3; _exit(3); }
static void on_trap(int, siginfo_t*, void* uc) { if (trap_hook && trap_hook(uc)) return; internal_error("unexpected SIGTRAP"); }
void install_signals() {
  static char* alt = (char*)mmap((void*)0x210000000000ull, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = 1 << 18; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
  sa.sa_sigaction = on_alarm; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGPROF, &sa, nullptr);
  sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, nullptr);
}
void (*access_hook)(uintptr_t, unsigned, bool, void*); void (*func_hook)(void*);
}
