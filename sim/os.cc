#include "os.h"
#include "libs.h"
#include <cerrno>
#include <cstdarg>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/random.h>
#include <pthread.h>
#include <poll.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/auxv.h>
OsPolicy os; EnvPolicy env; FILE* (*fopen_hook)(const char*, const char*); int sim_pid = 4242; bool os_strict_term;
static std::map<Task*, Ledger*> ledgers; Ledger* ledger_of(Task* t) { auto i = ledgers.find(t); return i == ledgers.end() ? nullptr : i->second; } void set_ledger(Task* t, Ledger* l) { ledgers[t] = l; }
static uint64_t entropy_seed; 
void os_deliver(Task* t, uint8_t* buf, size_t n) {
  if (!entropy_seed) entropy_seed = 0x5eed; uint64_t pos = shared_counter(0, n); Rng r(entropy_seed + pos * 0x9E3779B97F4A7C15ull + pos); r.fill(buf, n);
  Ledger* l = ledger_of(t); if (l) { l->bytes.insert(l->bytes.end(), buf, buf + n); } cnt("os.bytes", (int64_t)n);
}
void os_fill_tainted(Task* t, uint8_t* buf, size_t n) { memset(buf, 0x42, n); Ledger* l = ledger_of(t); if (l) { l->tainted = true; l->bytes.insert(l->bytes.end(), buf, buf + n); } cnt("os.tainted_bytes", (int64_t)n); }
void os_default() { os.entropy = [](Src, uint8_t* b, size_t n, unsigned, int) -> long { os_deliver(cur, b, n); return (long)n; }; os.open = [](const char*, int) -> long { return 3; }; os.win = [](int) { return true; }; }
static long finish(long r) { if (r < 0) { errno = (int)-r; return -1; } return r; }
static bool sim_on() { return cur && cur->inlib; }
uint64_t os_trace; static void touch(const char* what) { if (sim_on()) for (; *what; what++) os_trace = os_trace * 1099511628211ull + (unsigned char)*what + 1; }   // which services were asked for, in order
static bool refused(const char* what) { touch(what); if (!sim_on() || !env.fail) return false; R->steps++; return env.fail(what); }
static int64_t wall() { touch("clock"); if (sim_on() && env.clock) env.clock(); return now() + env.skew; }
static long ent(Src s, void* b, size_t n, unsigned f, int fd) {
  touch("entropy"); now() += 1000; R->steps++; yield_point(cur); Ledger* l = ledger_of(cur); if (l) l->requests++; cnt("os.requests");
  long r = os.entropy(s, (uint8_t*)b, n, f, fd); yield_point(cur); return finish(r); }
extern "C" {
int __wrap_close(int);
long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  if (sim_on()) {
    if (nr == SYS_getrandom) return ent(SRC_SYS_GETRANDOM, (void*)a, (size_t)b, (unsigned)c, -1);
    if (nr == SYS_read) return ent(SRC_READ, (void*)b, (size_t)c, 0, (int)a);
    if (nr == SYS_open) return finish(os.open((const char*)a, (int)b)); if (nr == SYS_openat) return finish(os.open((const char*)b, (int)c));
    if (nr == SYS_gettid) return cur->id + 1000; if (nr == SYS_getpid) return sim_pid; if (nr == SYS_close) return __wrap_close((int)a);
    cnt("os.unmodelled_syscall"); }
  return syscall(nr, a, b, c, d, e, f);
}
ssize_t __wrap_getrandom(void* b, size_t n, unsigned f) { return ent(SRC_GETRANDOM, b, n, f, -1); }
int __wrap_getentropy(void* b, size_t n) { if (n > 256) { errno = EIO; return -1; } size_t o = 0; while (o < n) { long r = ent(SRC_GETRANDOM, (char*)b + o, n - o, 0, -1); if (r < 0) { if (errno == EINTR) continue; return -1; } o += r; } return 0; }
void __wrap_arc4random_buf(void* b, size_t n) { os_deliver(cur, (uint8_t*)b, n); }
uint32_t __wrap_arc4random() { uint32_t x; os_deliver(cur, (uint8_t*)&x, 4); return x; }
int __wrap_open(const char* p, int fl, ...) { touch("open"); now() += 1000; R->steps++; yield_point(cur); Ledger* l = ledger_of(cur); if (l) { l->opens++; l->requests++; } cnt("os.opens"); long r = os.open(p, fl); yield_point(cur); return (int)finish(r); }
int __wrap_open64(const char* p, int fl, ...) { return __wrap_open(p, fl); }
int __wrap_openat(int, const char* p, int fl, ...) { return __wrap_open(p, fl); }
int __wrap___open_2(const char* p, int fl) { return __wrap_open(p, fl); }
int __wrap___open64_2(const char* p, int fl) { return __wrap_open(p, fl); }
ssize_t __wrap_read(int fd, void* b, size_t n) { return ent(SRC_READ, b, n, 0, fd); }
ssize_t __wrap___read_chk(int fd, void* b, size_t n, size_t) { return ent(SRC_READ, b, n, 0, fd); }
int __wrap_close(int fd) { touch("close"); cnt("os.close"); now() += 1000; yield_point(cur); long r = os.close ? os.close(fd) : 0; yield_point(cur); return (int)finish(r); }
int __wrap_fcntl(int, int, ...) { return 0; }
int __wrap_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
int __wrap_poll(struct pollfd* p, nfds_t n, int) { now() += 1000; for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return (int)n; }
int __wrap___poll_chk(struct pollfd* p, nfds_t n, int t, size_t) { return __wrap_poll(p, n, t); }
static void waits(const char* how) { touch(how); cnt("os.waits"); if (env.wait) env.wait(how); }
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { waits("nanosleep"); now() += t->tv_sec * 1000000000ll + t->tv_nsec; yield_point(cur); return 0; }
int __wrap_usleep(unsigned u) { waits("usleep"); now() += u * 1000ll; yield_point(cur); return 0; }
unsigned __wrap_sleep(unsigned s) { waits("sleep"); now() += s * 1000000000ll; yield_point(cur); return 0; }
int __wrap_sched_yield() { touch("yield"); yield_point(cur); return 0; }
// process termination
void __wrap_abort() { terminate_current("abort"); }
void __wrap_exit(int c) { terminate_current(c ? "exit(nonzero)" : "exit(0)"); }
void __wrap__exit(int) { terminate_current("_exit"); }
void __wrap__Exit(int) { terminate_current("_Exit"); }
void __wrap_quick_exit(int) { terminate_current("quick_exit"); }
int __wrap_raise(int s) { terminate_current(("raise " + std::to_string(s)).c_str()); }
int __wrap_kill(pid_t, int s) { terminate_current(("kill " + std::to_string(s)).c_str()); }
void __wrap___assert_fail(const char*, const char*, unsigned, const char*) { terminate_current("assert"); }
void __wrap___stack_chk_fail() { violation("crash", "stack protector: %s overran its stack frame", cur ? cur->opname : "?"); }
void __wrap___chk_fail() { violation("crash", "fortify check failed in %s", cur ? cur->opname : "?"); }
// time, identity and other ambient inputs
time_t __wrap_time(time_t* t) { time_t v = 1700000000 + wall() / 1000000000; if (t) *t = v; return v; }
clock_t __wrap_clock() { return wall() / 1000; }
int __wrap_gettimeofday(struct timeval* tv, void*) { int64_t w = wall(); tv->tv_sec = 1700000000 + w / 1000000000; tv->tv_usec = (w % 1000000000 + 1000000000) % 1000000000 / 1000; return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec* t) { if (refused("clock")) { errno = EINVAL; return -1; } int64_t w = wall(); t->tv_sec = 1700000000 + w / 1000000000; t->tv_nsec = (w % 1000000000 + 1000000000) % 1000000000; return 0; }
static uint64_t lcg = 1; int __wrap_rand() { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; return (lcg >> 33) & 0x7fffffff; } long __wrap_random() { return __wrap_rand(); } void __wrap_srand(unsigned s) { lcg = s; } void __wrap_srandom(unsigned s) { lcg = s; }
pid_t __wrap_getpid() { return sim_pid; } pid_t __wrap_getppid() { return 1; } pid_t __wrap_gettid() { return cur ? cur->id + 1000 : 1; }
pthread_t __wrap_pthread_self() { return (pthread_t)(cur ? cur->id + 0x7000 : 1); }
char* __wrap_getenv(const char* n) { touch("getenv"); return sim_on() && env.getenv ? env.getenv(n) : nullptr; } char* __wrap_secure_getenv(const char* n) { return __wrap_getenv(n); }
// locks
static std::map<void*, Task*> held;
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!cur) return 0; while (held.count(m)) { if (held[m] == cur && !cur->nest) { violation("deadlock", "%s locks a mutex it already holds", cur->opname); } if (held[m] == cur) violation("deadlock", "nested call blocks on a mutex held by the interrupted call"); block_on(m); } held[m] = cur; yield_point(cur); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (held.count(m)) return EBUSY; held[m] = cur; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { held.erase(m); wake_all(m); if (cur) yield_point(cur); return 0; }
static std::map<void*, int> once; int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) { for (;;) { int& s = once[o]; if (s == 2) return 0; if (s == 0) { s = 1; f(); once[o] = 2; wake_all(o); return 0; } block_on(o); } }
// stdio
static ssize_t dev_read(void*, char* b, size_t n) { long r = ent(SRC_READ, b, n, 0, 77); return r; }
FILE* __wrap_fopen(const char* p, const char* m) { if (refused("files")) { errno = EMFILE; return nullptr; } if (fopen_hook) { FILE* f = fopen_hook(p, m); if (f || errno) return f; } if (sim_on() && p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"))) { long r = os.open(p, O_RDONLY); if (r < 0) { errno = (int)-r; return nullptr; } cookie_io_functions_t io{}; io.read = dev_read; return fopencookie(nullptr, "r", io); } return fopen(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
// output: swallowed, noted
static int output(const char* how, size_t n) { touch(how); cnt("os.output"); if (refused("output")) { errno = EIO; return -1; } return (int)n; }
int __wrap_perror(const char*) { return output("perror", 0); }
#define STD(f) ((f) == stderr || (f) == stdout)
ssize_t __wrap_write(int, const void*, size_t n) { return output("write", n); }
int __wrap_printf(const char* f, ...) { return output("printf", strlen(f)); } int __wrap___printf_chk(int, const char* f, ...) { return output("printf", strlen(f)); }
int __wrap_fprintf(FILE* o, const char* f, ...) { (void)o; return output("fprintf", strlen(f)); } int __wrap___fprintf_chk(FILE*, int, const char* f, ...) { return output("fprintf", strlen(f)); }
int __wrap_dprintf(int, const char* f, ...) { return output("dprintf", strlen(f)); } int __wrap___dprintf_chk(int, int, const char* f, ...) { return output("dprintf", strlen(f)); }
void __wrap_syslog(int, const char*, ...) { output("syslog", 0); } void __wrap___syslog_chk(int, int, const char*, ...) { output("syslog", 0); }
int __wrap_puts(const char* c) { return output("puts", strlen(c)); } int __wrap_fputs(const char* c, FILE* f) { return STD(f) ? output("fputs", strlen(c)) : fputs(c, f); }
int __wrap_putchar(int c) { return output("putchar", 1) < 0 ? EOF : c; } int __wrap_fputc(int c, FILE* f) { return STD(f) ? (output("fputc", 1) < 0 ? EOF : c) : fputc(c, f); } int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
size_t __wrap_fwrite(const void* p, size_t a, size_t n, FILE* f) { return STD(f) ? (output("fwrite", n) < 0 ? 0 : n) : fwrite(p, a, n, f); }
// memory
#define NOMEM(v) if (refused("memory")) { errno = ENOMEM; return v; }
void* __wrap_malloc(size_t n) { NOMEM(nullptr) void* p = malloc(n); if (p) memset(p, 0xD7, n); return p; }
void* __wrap_calloc(size_t n, size_t m) { NOMEM(nullptr) return calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { NOMEM(nullptr) return realloc(p, n); }
void* __wrap_reallocarray(void* p, size_t n, size_t m) { NOMEM(nullptr) return reallocarray(p, n, m); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (refused("memory")) return ENOMEM; int r = posix_memalign(p, a, n); if (!r) memset(*p, 0xD7, n); return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { NOMEM(nullptr) void* p = aligned_alloc(a, n); if (p) memset(p, 0xD7, n); return p; }
void* __wrap_memalign(size_t a, size_t n) { NOMEM(nullptr) void* p = memalign(a, n); if (p) memset(p, 0xD7, n); return p; }
void* __wrap_valloc(size_t n) { NOMEM(nullptr) return memalign(4096, n); }
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { NOMEM(MAP_FAILED) return mmap(a, n, pr, fl, fd, o); }
void* __wrap_mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) { return __wrap_mmap(a, n, pr, fl, fd, o); }
int __wrap_mprotect(void* a, size_t n, int pr) { NOMEM(-1) return mprotect(a, n, pr); }
int __wrap_madvise(void* a, size_t n, int ad) { NOMEM(-1) return madvise(a, n, ad); }
int __wrap_mlock(const void*, size_t) { NOMEM(-1) return 0; }
char* __wrap_strdup(const char* c) { NOMEM(nullptr) return strdup(c); }
void* __wrap_sbrk(intptr_t) { errno = ENOMEM; return (void*)-1; }
int __wrap_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) { cnt("os.unmodelled_thread_creation"); return EAGAIN; }
long __wrap_sysconf(int n) { if (refused("sysconf")) { errno = EINVAL; return -1; } return sysconf(n); }
unsigned long __wrap_getauxval(unsigned long n) { if (refused("auxval")) { errno = ENOENT; return 0; } return getauxval(n); }
int __wrap_stat(const char*, void*) { errno = ENOENT; return -1; }
int __wrap_access(const char*, int) { errno = ENOENT; return -1; }
// Windows CryptoAPI
int CryptAcquireContextA(uintptr_t* h, const char*, const char*, uint32_t, uint32_t flags) { now() += 1000; R->steps++; cnt("os.win_acquire"); Ledger* l = ledger_of(cur); if (l) l->requests++; *h = 0; if (!(flags & 0xF0000000u)) cnt("os.win_no_verifycontext"); yield_point(cur); if (!os.win(0)) return 0; *h = 0xC0FFEE; return 1; }
int CryptAcquireContextW(uintptr_t* h, const void*, const void*, uint32_t t, uint32_t f) { return CryptAcquireContextA(h, nullptr, nullptr, t, f); }
int CryptGenRandom(uintptr_t h, uint32_t n, uint8_t* b) { if (h != 0xC0FFEE) return 0; return ent(SRC_WIN, b, n, 0, -1) >= 0; }
int CryptReleaseContext(uintptr_t, uint32_t) { now() += 1000; cnt("os.win_release"); return os.win(2); }
uint32_t GetLastError() { return (uint32_t)errno; } void SetLastError(uint32_t e) { errno = (int)e; } void Sleep(uint32_t ms) { now() += ms * 1000000ll; yield_point(cur); } uint32_t GetCurrentProcessId() { return (uint32_t)sim_pid; } uint32_t GetCurrentThreadId() { return cur ? cur->id : 0; } uint32_t GetTickCount() { return (uint32_t)(now() / 1000000); } void ExitProcess(unsigned) { terminate_current("ExitProcess"); }
}
