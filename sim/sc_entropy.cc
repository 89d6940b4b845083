// C04 exact delivery, C05 fail-stop, C06 fresh entropy per call, C07 transient faults and progress: the library's random
// source against a simulated kernel, with threads, forks and snapshot/rollback.
#include "core.h"
#include "libs.h"
#include "os.h"
#include "scenario.h"
#include <cerrno>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
static const char* BE[4] = {"linux", "dev", "netbsd", "win"};
static const int PERM[] = {EIO, ENOSYS, EPERM, EFAULT, EINVAL, ENOMEM, EACCES, EBADF, EAGAIN};
static const int OPENERR[] = {ENOENT, EMFILE, ENFILE, EACCES, ENOMEM, EIO, EPERM, ENXIO, ELOOP};
struct Call { int kind; int winmode = 0; uint8_t* out = nullptr; size_t len = 0; Ledger l; bool huge = false, mayfail = false; uint64_t hugepos = 0; bool hugebad = false, hugeskip = false; long permat = -1; int permerr = 0; bool permall = false; uint64_t storm = 0; uint64_t calmat = 0; uint64_t after = 0, afterperm = 0; bool releasefail = false; uint64_t stormsleft = 0; };
struct Entropy : Scenario {
  std::string p; std::vector<std::pair<std::string, std::string>> conf;     // flavour, back end
  Kem* k; int be; bool dead = false; unsigned pshort, pintr, pstorm; int64_t initat = 0; std::set<int> fds; unsigned popen; int fdbase; bool world_child = false; int worlds = 0; bool pre;
  Entropy(std::string p) : p(p) {}
  void load() override {
    for (std::string f : {"ship", "tsan"}) for (auto b : BE) if (have_lib(f + "_ref_2_" + b + ".so")) conf.push_back({f, b});
    for (auto& c : conf) for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) if (have_lib(c.first + (i ? "_avx2_" : "_ref_") + std::to_string(K) + "_" + c.second + ".so")) kem(c.first, i, K, c.second);
  }
  [[noreturn]] void report(const char* props, const char* kind, const std::string& m) {        // a violation of another property ends this run without a verdict
    if (strstr(props, p.c_str())) violation(kind, "%s, %s back end: %s", k->name.c_str(), BE[be], m.c_str());
    cnt((std::string("other_property.") + kind).c_str()); ev("stop: %s %s", kind, m.c_str()); if (world_child) _exit(77); finish_ok();
  }
  Call* call(Task* t) { return (Call*)t->user; }
  static const size_t REGION = 16u << 20;
  uint8_t* region(int id) { static std::map<int, uint8_t*> m; if (!m.count(id)) { void* want = (void*)(0x230000000000ull + id * 2 * REGION); m[id] = (uint8_t*)mmap(want, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (m[id] == MAP_FAILED) internal_error("region"); } return m[id]; }
  uint8_t* hugemap() { static uint8_t* h; if (!h) { uint8_t* base = (uint8_t*)mmap((void*)0x300000000000ull, (10ull << 30), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); int fd = memfd_create("huge", 0); size_t s = 64u << 20; if (ftruncate(fd, s)) internal_error("memfd"); for (size_t o = 0; o < (9ull << 30); o += s) mmap(base + o, s, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0); close(fd); h = base; } return h; }
  // ------------------------------------------------------------------ simulated kernel
  long entropy(Src s, uint8_t* buf, size_t len, unsigned flags, int fd) {
    Call* c = call(cur); if (!c) { os_deliver(cur, buf, len); return (long)len; }
    Ledger& l = c->l; 
    if (s == SRC_READ && !fds.count(fd)) { cnt("os.read_bad_fd"); return -EBADF; }
    if (c->permat >= 0 && (long)l.requests > c->permat && (c->permall || c->permerr != ENOSYS || s == SRC_SYS_GETRANDOM || s == SRC_GETRANDOM)) {
      l.perm = true; if (c->afterperm++ == 0) { cnt("fault.entropy.permanent"); char n[64]; snprintf(n, 64, "fault.entropy.errno.%s", strerrorname_np(c->permerr)); cnt(n); ev("entropy request %lu fails permanently: %s", l.requests, strerrorname_np(c->permerr)); }
      if (c->afterperm > 20000) report("C05", "no-termination", "keeps asking a permanently failed random source instead of terminating");
      return -c->permerr; }
    if (s != SRC_WIN && s != SRC_READ && now() < initat) {                       // kernel pool not yet initialised
      if (flags & 4) { cnt("fault.entropy.insecure_served"); os_fill_tainted(cur, buf, len); return (long)len; }
      if (flags & 1) { cnt("fault.entropy.would_block"); c->after = 0; return -EAGAIN; }
      cnt("fault.entropy.pool_uninitialised"); int64_t until = initat; bool sig = draw(4) == 3; if (sig) until = now() + 1 + (initat - now()) / 2; ev("getrandom blocks until %ld", (long)until); sleep_until(until); if (sig) { c->l.eintr++; c->after = 0; cnt("fault.entropy.eintr"); return -EINTR; } }
    c->after++;
    if (c->huge && c->l.requests > 60000) { cnt("huge.abandoned_small_chunks"); c->hugeskip = true; terminate_current("gigantic request not simulated to its end"); }   // fetched in small chunks: too many to simulate
    if (c->after > 40 + 2 * (c->len / 256) && !c->hugebad) report("C07", "no-progress", "request of " + std::to_string(c->len) + " bytes needs more than " + std::to_string(c->after) + " system requests although no interruption occurs any more");
    if (s != SRC_WIN && (long)l.requests <= (long)c->calmat) {
      if (c->storm) { c->storm--; c->calmat++; l.eintr++; c->after = 0; cnt("fault.entropy.eintr"); if (!(c->storm & 255)) now() += 1000000; return -EINTR; }
      unsigned r = draw(100);
      if (r >= 100 - pstorm && c->stormsleft) { c->stormsleft--; c->storm = drawlog(draw(6) == 5 ? 200000 : 6000); if (c->storm > 65536) cnt("fault.entropy.long_eintr_storm"); cnt("fault.entropy.eintr_storm"); cntmax("max.eintr_storm", c->storm + 1); ev("interruption storm of %lu", c->storm + 1); c->calmat++; l.eintr++; c->after = 0; cnt("fault.entropy.eintr"); return -EINTR; }
      if (r >= 100 - pstorm - pintr) { l.eintr++; c->after = 0; c->calmat += draw(2); cnt("fault.entropy.eintr"); ev("request %lu interrupted", l.requests); return -EINTR; }
      if (r >= 100 - pstorm - pintr - pshort && len > 1) { static const size_t E[] = {1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 255, 256, 257}; size_t n = draw(3) ? 1 + draw((uint32_t)std::min<size_t>(len - 1, 1u << 30)) : E[draw(14)]; if (n >= len) n = len - 1; l.shorts++; c->after = 0; c->calmat += draw(2); cnt("fault.entropy.short"); ev("request %lu for %zu bytes answered with %zu", l.requests, len, n); return deliver(c, buf, len, n); }
    }
    size_t cap = s == SRC_READ ? 0x7ffff000 : s == SRC_WIN ? SIZE_MAX : 33554431; if (len > cap) cnt("fault.entropy.kernel_size_cap");
    return deliver(c, buf, len, std::min(len, cap));
  }
  long deliver(Call* c, uint8_t* buf, size_t len, size_t n) {
    if (c->out && buf >= c->out - 4096 && buf < c->out + c->len + 4096 && (buf < c->out || buf + len > c->out + c->len)) report("C04", "out-of-bounds", "asks the system to write " + std::to_string(len) + " bytes at offset " + std::to_string((long)(buf - c->out)) + " of a request for " + std::to_string(c->len));
    if (c->huge) { if (buf < c->out || buf >= c->out + c->len) { c->hugebad = true; cnt("huge.not_judged"); } else { if (buf != c->out + c->hugepos && !c->hugebad) report("C04", "wrong-bytes", "request of " + std::to_string(c->len) + " bytes: fragment delivered at offset " + std::to_string(buf - c->out) + ", expected " + std::to_string(c->hugepos)); c->hugepos += n; } if (n > 65536) { cnt("os.bytes_not_materialised", (int64_t)n); return (long)n; } os_fill_tainted(cur, buf, n); return (long)n; }
    if (n > REGION / 2) report("C04", "out-of-bounds", "asks the system for " + std::to_string(len) + " bytes for a request of " + std::to_string(c->len));
    os_deliver(cur, buf, n); return (long)n;
  }
  long open(const char* path, int) {
    Call* c = call(cur); bool known = !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"); if (!known) { ev("open %s", path); return -ENOENT; }
    if (c) { if (c->permat >= 0 && (long)c->l.requests > c->permat && (c->permall || c->permerr != ENOSYS)) { c->l.perm = true; cnt("fault.entropy.open_fails"); int e = OPENERR[c->permerr % 9]; ev("open fails: %s", strerrorname_np(e)); if (++c->afterperm > 20000) report("C05", "no-termination", "keeps opening an unavailable device instead of terminating"); return -e; }
      c->after++; if (c->after > 40 + 2 * (c->len / 256)) report("C07", "no-progress", "opens the device again and again");
      if ((long)c->l.requests <= (long)c->calmat && draw(100) >= 100 - popen) { int n = draw(3) == 2 ? (int)drawlog(draw(8) == 7 ? 70000 : 300) : 0; c->storm = n; c->after = 0; c->calmat += 1 + n; c->l.eintr++; cnt("fault.entropy.open_eintr"); ev("open interrupted"); return -EINTR; }
      if (c->storm && (long)c->l.requests <= (long)c->calmat) { c->storm--; c->calmat++; c->after = 0; cnt("fault.entropy.open_eintr"); return -EINTR; } }
    int fd = fdbase; while (fds.count(fd)) fd++; fds.insert(fd); cnt(fd == 0 ? "os.fd_zero" : fd > 1000 ? "os.fd_large" : "os.fd_normal"); ev("open %s -> %d", path, fd); return fd;
  }
  // ------------------------------------------------------------------ one call and its verdict
  static bool ordered(const uint8_t* out, size_t n, const Bytes& d, uint64_t skips) { size_t j = 0; bool skipping = false; for (size_t i = 0; i < n; i++) { if (j < d.size() && d[j] == out[i]) { j++; skipping = false; continue; } if (!skips) return false; skips--; while (j < d.size() && (d[j] != out[i] || (i + 4 <= n && j + 4 <= d.size() && memcmp(&d[j], &out[i], 4)))) j++; if (j >= d.size()) return false; j++; } return true; }
  static const int LENS() { return 0; }
  void one(bool last) {
    Call c; Task* t = cur; t->user = &c; set_ledger(t, &c.l);
    c.kind = p == "C06" ? draw(8) < 2 ? 0 : 1 + draw(2) : draw(4) < 2 ? 0 : 1 + draw(2);
    bool faulty = draw(4) != 0; c.calmat = faulty ? 1 + drawlog(40) : 0; c.stormsleft = draw(3);
    if (draw(p == "C05" ? 2 : 5) == 1 && p != "C07") { c.mayfail = true; c.permat = (long)drawlog(12); c.permerr = PERM[draw(be == 1 ? 9 : 8)]; c.permall = draw(3) != 2; c.winmode = draw(3); if (c.permerr == EAGAIN) c.permerr = EIO; }
    errno = (int[]){0, EINTR, EAGAIN, ENOSYS, EIO}[draw(5)]; if (draw(4) == 3) dirty_stack(draw64(), draw(5));
    Term term; bool ok = true;
    if (c.kind == 0) {
      static const size_t EL[] = {0, 1, 7, 8, 31, 32, 33, 48, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 1048575, 1048576, 1048577, 2097152, 2097153};
      static const uint64_t HL[] = {1ull << 31, 1ull << 32, (1ull << 32) + 32, (1ull << 31) + 64, 0x7ffff000ull, 0x7ffff001ull, (1ull << 33) + 7, (1ull << 25), (1ull << 25) - 1, (1ull << 32) - 1, (1ull << 31) - 1};
      if (p == "C04" && chance(1, 25)) { c.huge = true; c.len = HL[draw(11)]; c.out = hugemap(); cnt("requests.huge"); }
      else { int m = draw(6); c.len = m < 3 ? draw(200) : m == 3 ? EL[draw(31)] : m == 4 ? (size_t)drawlog(70000) : (size_t)drawlog(1200); if (c.len > 300000 && k->name[0] == 't') c.len &= 0xffff; c.out = region(t->id) + 8192 + draw(65); }
      Bytes before; if (!c.huge) { memset(c.out - 256, 0xC5, c.len + 512); }
      ev("randombytes(%zu) errno=%d", c.len, errno); sigmix(c.len);
      ok = libcall("randombytes", term, [&] { k->randombytes(c.out, c.len); });
      if (ok && !c.huge) for (int i = 0; i < 256; i++) if (c.out[-1 - i] != 0xC5 || c.out[c.len + i] != 0xC5) report("C04", "out-of-bounds", "request of " + std::to_string(c.len) + " bytes changed memory outside its buffer");
    } else if (c.kind == 1) {
      c.len = 64; ev("keypair errno=%d", errno); uint8_t* r = region(t->id) + 8192; memset(r, 0xC5, 2 * 4096); ok = libcall("keypair", term, [&] { k->keypair(r, r + 2048); });
      if (ok) { verdict_common(c, "keypair"); Bytes pk, sk; if (c.l.bytes.size() < 64) report("C04C05C06", "foreign-entropy", "key pair returned although the system supplied only " + std::to_string(c.l.bytes.size()) + " bytes to this call"); model::keygen(*k->P, c.l.bytes.data(), pk, sk); cnt("checked.keypair"); if (memcmp(r, pk.data(), pk.size()) || memcmp(r + 2048, sk.data(), sk.size())) report("C04C05C06", "foreign-entropy", "key pair is not the one determined by the bytes supplied to this call"); }
    } else {
      c.len = 32; Bytes pk = rndblob(k->pkb); uint8_t* r = region(t->id) + 8192; memset(r, 0xC5, 4096); memcpy(r + 4096, pk.data(), pk.size()); ev("enc errno=%d", errno); ok = libcall("enc", term, [&] { k->enc(r, r + 2048, r + 4096); });
      if (ok) { verdict_common(c, "enc"); Bytes ct, ss; if (c.l.bytes.size() < 32) report("C04C05C06", "foreign-entropy", "ciphertext returned although the system supplied only " + std::to_string(c.l.bytes.size()) + " bytes to this call"); model::enc(*k->P, pk, c.l.bytes.data(), ct, ss); cnt("checked.enc"); if (memcmp(r, ct.data(), ct.size()) || memcmp(r + 2048, ss.data(), 32)) report("C04C05C06", "foreign-entropy", "ciphertext or secret is not the one determined by the bytes supplied to this call"); }
    }
    t->user = nullptr;
    if (!ok && c.hugeskip) { ev("abandoned"); dead = true; stop_schedule = true; return; }
    if (!ok) { ev("process terminated: %s", term.how.c_str()); dead = true; stop_schedule = true; if (!c.l.perm && !c.releasefail) report("C07", "terminated", "the process is terminated (" + term.how + ") although the random source only interrupted or shortened requests (" + std::to_string(c.l.eintr) + " interruptions, " + std::to_string(c.l.shorts) + " short answers)"); cnt("outcome.terminated_on_permanent_failure"); return; }
    if (c.kind == 0) { verdict_common(c, "randombytes"); 
      if (c.huge) { if (!c.hugebad && c.hugepos != c.len) report("C04", "wrong-bytes", "request of " + std::to_string(c.len) + " bytes returned after " + std::to_string(c.hugepos) + " were delivered"); cnt("checked.huge"); }
      else { cnt("checked.randombytes"); if (!ordered(c.out, c.len, c.l.bytes, c.l.requests)) report(c.l.bytes.size() < c.len ? "C04C05C06" : "C04C06", "wrong-bytes", "buffer of " + std::to_string(c.len) + " bytes does not consist of the " + std::to_string(c.l.bytes.size()) + " bytes the system supplied, in order (requests " + std::to_string(c.l.requests) + ", short " + std::to_string(c.l.shorts) + ", interrupted " + std::to_string(c.l.eintr) + ")"); } }
    cnt("outcome.returned"); if (c.l.eintr || c.l.shorts) cnt("outcome.returned_after_transient"); ev("returned after %lu requests %lx", c.l.requests, hashb(c.l.bytes)); sigmix(c.l.requests * 31 + c.l.shorts);
  }
  // a long, undisturbed life of the process before the faults: many requests, days between some of them
  void prelude(int n) {
    Rng r(draw64()); cnt("runs.long_history"); cntmax("max.requests_before_faults", n); ev("%d undisturbed requests", n); Task* t = cur;
    for (int i = 0; i < n && !dead; i++) { Call c; t->user = &c; set_ledger(t, &c.l); c.kind = 0; c.len = r.next() % 90; c.out = region(t->id) + 8192 + r.next() % 64; memset(c.out - 64, 0xC5, c.len + 128); errno = r.next() % 8 ? 0 : EINTR; R->steps++; if (r.next() % 64 == 0) now() += (int64_t)(r.next() % 100000000000000ull);
      Term term; bool ok = libcall("randombytes", term, [&] { k->randombytes(c.out, c.len); }); t->user = nullptr;
      if (!ok) report("C07", "terminated", "the process is terminated (" + term.how + ") in request " + std::to_string(i + 1) + " although the random source works");
      for (int j = 0; j < 64; j++) if (c.out[-1 - j] != 0xC5 || c.out[c.len + j] != 0xC5) report("C04", "out-of-bounds", "request " + std::to_string(i + 1) + ", of " + std::to_string(c.len) + " bytes, changed memory outside its buffer");
      if (!ordered(c.out, c.len, c.l.bytes, c.l.requests)) report(c.l.bytes.size() < c.len ? "C04C05C06" : "C04C06", "wrong-bytes", "buffer of request " + std::to_string(i + 1) + ", of " + std::to_string(c.len) + " bytes, does not consist of the " + std::to_string(c.l.bytes.size()) + " bytes the system supplied to it"); }
  }
  void verdict_common(Call& c, const char* what) {
    if (c.l.perm && c.permall) report("C05", "returned-after-failure", std::string(what) + " returned to its caller although the random source had failed permanently");
    if (c.l.perm && c.l.bytes.size() < c.len) report("C05", "returned-after-failure", std::string(what) + " returned to its caller with too few bytes after a permanent failure");
    if (c.l.tainted && !c.huge) report("C05", "predictable-bytes", std::string(what) + " uses bytes from an uninitialised pool");
  }
  // ------------------------------------------------------------------ worlds: fork and snapshot/rollback
  void split(bool rollback) {
    if (worlds >= 3) return; worlds++; cnt(rollback ? "fault.rollback" : "fault.fork"); ev(rollback ? "snapshot" : "fork"); Task* self = cur;
    pid_t q = fork(); if (q < 0) internal_error("fork");
    if (q == 0) { world_child = true; rearm(); if (!rollback) { sim_pid += 1; for (Task* t : all_tasks()) if (t != self && t->st != Task::DONE) t->st = Task::ABANDONED; } ev(rollback ? "first future" : "child"); return; }
    int st; while (waitpid_(q, &st) < 0) {} if (R->state == 2) _exit(0); if (R->state == 3) _exit(3); if (!WIFEXITED_(st)) internal_error("world ended abnormally (status %x)", st);
    ev(rollback ? "rolled back to the snapshot" : "parent continues");
  }
  static int waitpid_(pid_t p, int* st); static bool WIFEXITED_(int st); void rearm();
  void actor(int n) { for (int i = 0; i < n && !dead; i++) { R->steps++; if ((p == "C06" || p == "C05") && draw(p == "C06" ? 3 : 8) == 2) split(draw(2)); if (dead) break; one(i == n - 1); } }
  void run() override {
    auto& cf = conf[draw((uint32_t)conf.size())]; be = 0; for (int i = 0; i < 4; i++) if (cf.second == BE[i]) be = i; k = kem(cf.first, draw(2), 2 + draw(cf.first == "tsan" ? 2 : 3), cf.second);
    bool preempt = cf.first == "tsan"; int nt = draw(2) ? 1 + draw(3) : 1; pshort = draw(2) ? draw(60) : 0; pintr = draw(2) ? draw(35) : 0; pstorm = draw(3) == 2 ? draw(5) : 0; popen = draw(2) ? draw(60) : 0; fdbase = (int[]){3, 0, 1023, 1024, 65536}[draw(5)]; pre = draw(5) == 4; initat = pre ? 1000 + (int64_t)drawlog(3600000000000ll) : 0; int scale = preempt ? 4 + draw(14) : 3;
    sample("%s tasks=%d short=%u%% intr=%u%% storm=%u%% pool at %lds", k->name.c_str(), nt, pshort, pintr, pstorm, (long)(initat / 1000000000)); cnt((std::string("backend.") + BE[be]).c_str());
    os.entropy = [this](Src s, uint8_t* b, size_t n, unsigned f, int fd) { return entropy(s, b, n, f, fd); }; os.open = [this](const char* q, int f) { return open(q, f); }; os.close = [this](int fd) -> long { if (!fds.erase(fd)) { cnt("os.close_bad_fd"); return -EBADF; } cnt("os.descriptor_closed"); return 0; };
    os.win = [this](int what) { Call* c = call(cur); if (!c || c->permat < 0 || (long)c->l.requests <= c->permat) return true; if (what == 0 && c->winmode == 1) { cnt("fault.entropy.only_generation_fails"); return true; } if (what == 0) { c->l.perm = true; cnt("fault.entropy.provider_fails"); ev("provider fails"); return false; } if (draw(2)) { c->releasefail = true; cnt("fault.entropy.release_fails"); return false; } return true; };
    bool abandon = draw(6) == 5;
    if (nt > 1) { slice_policy = [scale](Task*) -> int64_t { return chance(3, 4) ? 1 + (int64_t)drawlog(1u << scale) : 0; }; on_slice_end = [abandon](Task* t) { cnt("sched.preemptions"); if (abandon && chance(1, 12)) { cnt("fault.thread_killed_inside_call"); ev("thread killed in %s", t->opname); t->inlib = 0; abandon_current(); } yield_now(); }; }
    for (int i = 0; i < nt; i++) { int n = 1 + draw(preempt && nt > 1 ? 3 : 6); int pre = draw(60) == 59 ? 200 + (int)drawlog(preempt ? 400 : draw(3) == 2 ? 70000 : 3000) : 0; spawn("thread" + std::to_string(i), [this, n, pre] { if (pre) prelude(pre); actor(n); }); }
    schedule(); if (world_child) _exit(77);
  }
};
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <signal.h>
int Entropy::waitpid_(pid_t p, int* st) { return waitpid(p, st, 0); }
bool Entropy::WIFEXITED_(int st) { return WIFEXITED(st); }
void Entropy::rearm() { struct itimerval it{}; it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, nullptr); prctl(PR_SET_PDEATHSIG, SIGKILL); }
Scenario* sc_entropy(const std::string& p) { return new Entropy(p); }
