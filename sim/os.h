// Simulated operating system behind the libraries (reached through link-time --wrap).
#pragma once
#include "core.h"
enum Src { SRC_SYS_GETRANDOM, SRC_GETRANDOM, SRC_READ, SRC_WIN };
struct Ledger { Bytes bytes; uint64_t requests = 0, calm = 0; bool perm = false, tainted = false; uint64_t eintr = 0, shorts = 0, opens = 0; uint64_t since_fault = 0; };
struct OsPolicy {
  // returns n>=0 delivered bytes (fills buf itself through os_deliver) or -errno
  std::function<long(Src, uint8_t* buf, size_t len, unsigned flags, int fd)> entropy;
  std::function<long(const char* path, int flags)> open;           // fd or -errno
  std::function<long(int fd)> close;                               // 0 or -errno
  std::function<bool(int what)> win;                               // 0 acquire, 2 release: success?
};
extern OsPolicy os; extern Ledger* ledger_of(Task*); extern void set_ledger(Task*, Ledger*);
void os_deliver(Task*, uint8_t* buf, size_t n);                  // fresh entropy bytes, recorded in the task's ledger
void os_fill_tainted(Task*, uint8_t* buf, size_t n);             // predictable bytes (pool not initialised), ledger marked
extern FILE* (*fopen_hook)(const char* path, const char* mode);
extern bool os_strict_term;
extern int sim_pid;
extern long (*extra_syscall)(long nr, long a, long b, long c);
struct EnvPolicy { std::function<bool(const char* what)> fail; std::function<char*(const char*)> getenv; int64_t skew = 0; std::function<void()> clock; std::function<void(const char* how)> wait; };   // everything else a process can ask for
extern EnvPolicy env;
extern uint64_t os_trace;                                         // hash of the sequence of services libraries have asked for
void os_default();
