// Deterministic simulation core: choice tape, event log, counters, violations, tasks and scheduler.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <csetjmp>
#include "model.h"
typedef std::vector<uint8_t> Bytes;
namespace sim {
// ---------------------------------------------------------------- per-run shared result (survives crashes, forks)
const uint32_t TAPEMAX = 1u << 18;
struct Stat { char name[56]; int64_t v; };
struct Result {
  int state;                       // 0 running, 1 passed, 2 violation, 3 internal error
  char kind[64]; char msg[2000];
  uint64_t hash, sig, nev, steps; int64_t simtime;      // event-log hash; signature of the schedule; simulated ns
  uint32_t ntape; uint32_t tape[TAPEMAX];
  Stat stats[512]; int nstats;
  uint32_t nlog; char log[1 << 19];  // text log, only when verbose
  char sample[4000];
};
extern Result* R;
extern bool verbose;
extern std::string prop, tier, builddir;
// ---------------------------------------------------------------- choices: 0 is always the benign choice
uint32_t draw(uint32_t n);         // [0,n)
uint32_t rare(uint32_t n);         // [0,n) biased towards 0
bool chance(unsigned num, unsigned den);
uint64_t draw64();
uint64_t drawlog(uint64_t max);    // log-uniform in [0,max]
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {} uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) * n >> 32) : 0; } void fill(void* p, size_t n); };
Bytes blob(size_t n);              // tape-chosen content: random or structured
Bytes rndblob(size_t n);           // tape-chosen uniformly random content
// ---------------------------------------------------------------- log, counters, verdicts
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void tr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // text log only, no hash
void sigmix(uint64_t x);           // contributes to the "distinct schedule/state" signature
void cnt(const char* name, int64_t v = 1);
[[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hexs(const Bytes& b, size_t max = 16);
uint64_t hashbytes(const void* p, size_t n);
inline uint64_t hashb(const Bytes& b) { return hashbytes(b.data(), b.size()); }
extern int64_t& now();
// ---------------------------------------------------------------- tasks
struct Task {
  int id; std::string name; std::function<void()> fn; char* stack; size_t stacksz; void* sp = nullptr;
  enum St { RUNNABLE, BLOCKED, DONE, ABANDONED } st = RUNNABLE;
  int errno_ = 0; int64_t slice = 0; int inlib = 0; uint64_t accesses = 0; int64_t wake = INT64_MAX; void* waiton = nullptr;
  jmp_buf* jb = nullptr; std::vector<std::vector<uint8_t>> tls; int nest = 0; void* user = nullptr; const char* opname = ""; uint64_t bp_n = 0;
};
extern Task* cur;                  // null = scheduler / scenario main
Task* spawn(const std::string& name, std::function<void()> fn);
void yield_now();                  // back to the scheduler, stay runnable
void block_on(void* what); void wake_all(void* what);
[[noreturn]] void abandon_current();
void sleep_until(int64_t t); bool block_until(void* what, int64_t t);   // true if woken before the time
// run all tasks until none is left; slice_policy picks the number of yield points the chosen task may pass
extern std::function<int64_t(Task*)> slice_policy;
extern std::function<void(Task*)> on_slice_end;     // default: yield
extern bool stop_schedule;           // set by a scenario when its work is complete
void schedule();
void cntmax(const char* name, int64_t v);
const std::vector<Task*>& all_tasks();
inline void yield_point(Task* t) { if (t && t->inlib && t->slice > 0 && --t->slice == 0) on_slice_end(t); }
void mem_access(uintptr_t a, unsigned n, bool w);   // from the tsan run-time
extern void (*access_hook)(uintptr_t a, unsigned n, bool w, void* pc);
extern void (*func_hook)(void* pc);
void dirty_stack(uint64_t seed, int pattern);       // fills the unused part of the current stack
// call into the library; returns false if the simulated process terminated (abort/exit) inside
struct Term { bool dead = false; std::string how; };
template <class F> bool libcall(const char* op, Term& t, F f);
extern std::string term_how;
[[noreturn]] void terminate_current(const char* how);
template <class F> __attribute__((noinline)) bool libcall(const char* op, Term& t, F f) {
  jmp_buf jb; jmp_buf* old = cur->jb; const char* oldop = cur->opname; int oldin = cur->inlib;
  if (!__builtin_expect(_setjmp(jb), 0)) { cur->jb = &jb; cur->opname = op; cur->inlib = 1; f(); cur->inlib = oldin; cur->jb = old; cur->opname = oldop; return true; }
  cur->inlib = oldin; cur->jb = old; cur->opname = oldop; t.dead = true; t.how = term_how; return false;
}
void install_signals();
extern bool (*trap_hook)(void* ucontext);            // SIGTRAP
extern bool (*segv_hook)(void* ucontext, uintptr_t addr, bool write);  // C10 and friends; true = handled
std::string describe_pc(uintptr_t pc);
uint64_t shared_counter(int which, uint64_t add);    // monotone counters that survive simulated fork/rollback
void load_tape(const std::vector<uint32_t>& t);
extern bool replaying;
}
using namespace sim;
