// C18 operations that are given their randomness need nothing from their surroundings.
#include "ops.h"
#include "scenario.h"
#include <cerrno>
#include <sys/mman.h>
extern "C" void sim_on_stack(void (*f)(void*), void* arg, void* top);
asm(R"(
.text
.globl sim_on_stack
.type sim_on_stack,@function
sim_on_stack:
  push %rbp
  mov %rsp,%rbp
  mov %rdx,%rsp
  and $-64,%rsp
  mov %rdi,%rax
  mov %rsi,%rdi
  call *%rax
  mov %rbp,%rsp
  pop %rbp
  ret
.size sim_on_stack,.-sim_on_stack
)");
static const size_t SMALL = 128 << 10;      // the smallest default thread stack of a mainstream C library (musl)
struct Env : Scenario {
  std::string p; Kem* k[2][5][4] = {}; OpGen gen; static constexpr const char* BE[4] = {"linux", "dev", "netbsd", "win"};
  Env(std::string p) : p(p) {}
  void load() override { for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) for (int b = 0; b < 4; b++) if (b == 0 || have_lib("ship_" + std::string(i ? "avx2" : "ref") + "_" + std::to_string(K) + "_" + BE[b] + ".so")) k[i][K][b] = kem("ship", i, K, BE[b]); }
  struct Weather { bool entropy = false, mem = false, files = false, clock = false, vars = false, other = false; int err = 0; unsigned pmem = 100; int taint = 0; bool deterministic = true; };
  std::map<Task*, Weather> W;
  struct Ctx { Op* o; u8** p; int rc; };
  u8* small = nullptr; bool small_busy = false;
  void perform(Op& o) {
    Weather& w = W[cur]; size_t am = arena_mark(); std::vector<Buf*> bufs; u8* ptr[12]; Ledger* oldl = ledger_of(cur); Ledger l; set_ledger(cur, &l);
    for (size_t i = 0; i < o.a.size(); i++) { Buf* b = o.a[i].m == IN ? new Buf(o.a[i].v) : new Buf(o.a[i].v.size()); bufs.push_back(b); ptr[i] = b->p; }
    w.deterministic = !o.random; Term t; Ctx c{&o, ptr, 0}; bool tiny = draw(3) != 0 && !small_busy; static const int E[] = {0, ENOMEM, EINTR, ENOSYS}; errno = E[draw(4)];
    if (tiny) { small_busy = true; cnt("fault.small_stack"); memset(small, draw(2) ? 0xff : 0x5a, SMALL); }
    bool ok = libcall(o.name.c_str(), t, [&] { if (tiny) sim_on_stack([](void* a) { Ctx* c = (Ctx*)a; c->rc = c->o->call(c->p); }, &c, small + SMALL); else c.rc = o.call(ptr); });
    if (tiny) { size_t i = 0; u8 f = small[0]; while (i < SMALL && small[i] == f) i++; cntmax("max.stack_bytes", (int64_t)(SMALL - i)); small_busy = false; }
    set_ledger(cur, oldl);
    if (!ok) violation("terminated", "%s %s terminated the process (%s) although it needs nothing that was refused", o.k->name.c_str(), o.name.c_str(), t.how.c_str());
    op_expect(o, l.bytes);
    for (size_t i = 0; i < o.a.size(); i++) { if (o.a[i].m == STATE) continue; u8* q = ptr[i]; cnt("checked.outputs", o.a[i].m == OUT); if (memcmp(q, o.a[i].v.data(), o.a[i].v.size())) { size_t d = 0; while (q[d] == o.a[i].v[d]) d++; violation(o.a[i].m == IN ? "input-modified" : "wrong-result", "%s %s: %s differs from the specified result from byte %zu of %zu (%02x instead of %02x)", o.k->name.c_str(), o.name.c_str(), o.a[i].name, d, o.a[i].v.size(), q[d], o.a[i].v[d]); } }
    if (c.rc) violation("wrong-result", "%s %s returned %d", o.k->name.c_str(), o.name.c_str(), c.rc);
    cnt((std::string("done.") + o.name).c_str()); for (size_t i = bufs.size(); i--;) delete bufs[i]; arena_reset(am);
  }
  void change(Weather& w) {
    w = Weather(); int kind = draw(8); static const int E[] = {EIO, ENOSYS, EPERM, EAGAIN, ENOMEM, EINTR, EFAULT};
    w.err = E[draw(7)]; w.entropy = kind == 1 || kind == 7 || draw(4) == 3; w.mem = kind == 2 || kind == 7 || draw(4) == 3; w.files = kind == 3 || kind == 7 || draw(6) == 5; w.clock = kind == 4 || kind == 7 || draw(6) == 5; w.vars = kind == 5 || kind == 7 || draw(6) == 5; w.other = kind == 6 || kind == 7 || draw(6) == 5;
    w.pmem = draw(2) ? 100 : 5 + draw(70); w.taint = draw(4);
    ev("surroundings: entropy=%d mem=%d files=%d clock=%d vars=%d other=%d", w.entropy, w.mem, w.files, w.clock, w.vars, w.other);
    if (w.entropy) cnt("fault.env.entropy_unavailable"); if (w.mem) cnt("fault.env.no_memory"); if (w.files) cnt("fault.env.no_files"); if (w.clock) cnt("fault.env.clock_jumps"); if (w.vars) cnt("fault.env.hostile_variables"); if (w.other) cnt("fault.env.other_requests_refused");
  }
  void run() override {
    int nt = 1 + draw(2), mode = draw(4), K0 = 2 + draw(3), i0 = draw(2); int b0 = 0, nb = 0; for (int b = 1; b < 4; b++) if (k[0][2][b]) nb++; b0 = draw(2) ? draw(1 + nb) : 0; if (b0 && !k[0][2][b0]) b0 = 0;
    for (int& x : gen.weights) x = 2; gen.weights[OP_KEYPAIR_D] = 4; gen.weights[OP_ENC_D] = 5; gen.weights[OP_DEC] = 6; gen.weights[OP_KEYPAIR] = gen.weights[OP_ENC] = gen.weights[OP_RANDOM] = 1; gen.related = draw(4) == 3; if (draw(8) == 7) { gen.maxhash = 20000; cnt("runs.long_inputs"); }
    if (!small) { u8* m = (u8*)mmap((void*)0x260000000000ull, SMALL + (1 << 20) + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) internal_error("small stack"); small = m + (1 << 20); mprotect(small, SMALL, PROT_READ | PROT_WRITE); }
    env.fail = [this](const char* what) { Weather& w = W[cur]; std::string s = what; bool f = s == "memory" ? w.mem && chance(w.pmem, 100) : s == "files" ? w.files : s == "clock" ? w.clock && draw(2) : w.other; cnt(("env.request." + s).c_str()); if (f) { cnt(("fault.refused." + s).c_str()); ev("%s refused in %s", what, cur->opname); } return f; };
    env.getenv = [this](const char* n) -> char* { Weather& w = W[cur]; cnt("env.request.variable"); if (!w.vars) return nullptr; static const char* V[] = {"1", "", "0", "yes", "-1", "99999999999999999999", "/nonexistent", "debug"}; cnt("fault.hostile_variable"); return (char*)V[draw(8)]; };
    env.clock = [this] { Weather& w = W[cur]; cnt("env.request.clock"); if (w.clock) { env.skew = (int64_t)drawlog(1ull << 60) * (draw(2) ? -1 : 1); cnt("fault.clock_jump"); } };
    env.wait = [this](const char* how) { if (W[cur].deterministic) violation("waits", "%s: %s, which is given its randomness, sleeps (%s)", sim::prop.c_str(), cur->opname, how); };
    os.entropy = [this](Src, u8* b, size_t n, unsigned fl, int) -> long { Weather& w = W[cur]; cnt("env.request.entropy");
      if (w.deterministic && w.entropy) { cnt("fault.refused.entropy"); ev("entropy refused (%d) in %s", w.err, cur->opname); if (w.taint == 3) { if (fl & 1) return -EAGAIN; violation("blocked", "%s waits for the kernel's random source, which may never answer, although it was given its randomness", cur->opname); } if (w.taint == 2) { memset(b, 0, n); return (long)n; } return -w.err; }
      os_deliver(cur, b, n); return (long)n; };
    os.open = [this](const char*, int) -> long { Weather& w = W[cur]; cnt("env.request.open"); if (w.deterministic && (w.files || w.entropy)) { cnt("fault.refused.open"); return -EMFILE; } return 3; };
    os.win = [this](int) { Weather& w = W[cur]; return !(w.deterministic && w.entropy); };
    sample("threads=%d mode=%d K=%d impl=%d backend=%s", nt, mode, K0, i0, BE[b0]);
    for (int i = 0; i < nt; i++) { int n = 3 + draw(10); spawn("thread" + std::to_string(i), [this, n, mode, K0, i0, b0] { W[cur]; for (int j = 0; j < n; j++) { if (draw(3)) change(W[cur]); Kem* q = k[mode & 1 ? draw(2) : i0][mode & 2 ? 2 + draw(3) : K0][b0]; Op o = gen.make(q); now() += 1000000; R->steps++; ev("%s %s", q->name.c_str(), o.name.c_str()); Weather& w = W[cur]; sigmix(o.kind * 31 + q->K + q->impl * 7 + (w.entropy | w.mem << 1 | w.files << 2 | w.clock << 3 | w.vars << 4 | w.other << 5) * 1000); perform(o); if (draw(90) == 89) { int r = 30 + (int)drawlog(220); cnt("runs.burst_of_calls"); for (int b = 0; b < r; b++) { Op c = o; now() += 1000000; perform(c); } for (int b = 0; b < 4; b++) { Op d = gen.make(q, draw(3) ? OP_DEC : o.kind); perform(d); } } yield_now(); } }); }
    schedule();
  }
};
Scenario* sc_env(const std::string& p) { return new Env(p); }
