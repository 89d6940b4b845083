// C08 concurrent callers, C09 abandoned / nested / preceding calls.
#include "ops.h"
#include "bp.h"
#include "scenario.h"
#include <cerrno>
#include <sys/mman.h>
static const char* IMPLN[2] = {"ref", "avx2"};
// ------------------------------------------------------------------ call with prepared register file
extern "C" long sim_tcall(void* fn, long* args, void* frame);
asm(R"(
.text
.globl sim_tcall
.type sim_tcall,@function
sim_tcall:
  push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15
  push %rdx
  mov %rdi,%rax
  mov %rdx,%r11
  vmovdqu 128(%r11),%ymm0; vmovdqu 160(%r11),%ymm1; vmovdqu 192(%r11),%ymm2; vmovdqu 224(%r11),%ymm3; vmovdqu 256(%r11),%ymm4; vmovdqu 288(%r11),%ymm5; vmovdqu 320(%r11),%ymm6; vmovdqu 352(%r11),%ymm7
  vmovdqu 384(%r11),%ymm8; vmovdqu 416(%r11),%ymm9; vmovdqu 448(%r11),%ymm10; vmovdqu 480(%r11),%ymm11; vmovdqu 512(%r11),%ymm12; vmovdqu 544(%r11),%ymm13; vmovdqu 576(%r11),%ymm14; vmovdqu 608(%r11),%ymm15
  ldmxcsr 640(%r11)
  fldcw 644(%r11)
  mov 0(%r11),%rbx; mov 8(%r11),%rbp; mov 16(%r11),%r12; mov 24(%r11),%r13; mov 32(%r11),%r14; mov 40(%r11),%r15
  mov %rsi,%r10
  mov 0(%r10),%rdi; mov 8(%r10),%rsi; mov 16(%r10),%rdx; mov 24(%r10),%rcx; mov 32(%r10),%r8; mov 40(%r10),%r9
  mov %rbx,%r10
  mov 24(%r11),%r11
  call *%rax
  mov (%rsp),%r11
  mov %rbx,48(%r11); mov %rbp,56(%r11); mov %r12,64(%r11); mov %r13,72(%r11); mov %r14,80(%r11); mov %r15,88(%r11)
  mov %rax,96(%r11)
  pushfq; pop %rax; mov %rax,104(%r11)
  stmxcsr 648(%r11)
  fnstenv 656(%r11)
  cld
  mov 96(%r11),%rax
  pop %rdx
  pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp
  ret
.size sim_tcall,.-sim_tcall
)");
struct alignas(64) Frame { uint64_t in[6], out[6], rax, flags, pad[2]; uint8_t ymm[512]; uint32_t mxcsr; uint16_t cw, p2; uint32_t mxcsr_out, p3; uint32_t env[7]; };
static_assert(offsetof(Frame, ymm) == 128 && offsetof(Frame, mxcsr) == 640 && offsetof(Frame, env) == 656, "");
static void fpu_default() { uint32_t m = 0x1f80; uint16_t c = 0x37f; asm volatile("ldmxcsr %0; fninit; fldcw %1; cld" ::"m"(m), "m"(c)); }
struct Threads : Scenario {
  std::string p; Kem* k[2][2][5] = {}; OpGen gen; bool tsan = false, shared = false; int abandon_kind = 0; 
  Threads(std::string p) : p(p) {}
  double cpu_limit() override { return 60; }
  void load() override { for (int f = 0; f < 2; f++) for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) k[f][i][K] = kem(f ? "tsan" : "ship", i, K); for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) load_instructions(k[0][i][K]->lib); map_rw_pages(); }
  // places the arguments, performs the call, compares; returns false if the call was abandoned
  std::map<Bytes, u8*> shin; u8* shbase = nullptr; size_t shpos = 0;
  u8* shared_in(const Bytes& b) { auto i = shin.find(b); if (i != shin.end()) return i->second; if (!shbase) { shbase = (u8*)mmap((void*)0x240000000000ull, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); } u8* q = shbase + shpos; if (shpos + b.size() + 64 > (4u << 20)) internal_error("shared inputs"); mprotect(shbase, 4 << 20, PROT_READ | PROT_WRITE); memcpy(q, b.data(), b.size()); mprotect(shbase, 4 << 20, PROT_READ); shpos += (b.size() + 63) & ~63ull; shin[b] = q; return q; }
  bool perform(Op& o, bool machine) {
    size_t am = arena_mark(); std::vector<Buf*> bufs; u8* ptr[12]; Ledger* oldl = ledger_of(cur); Ledger l; set_ledger(cur, &l); bool sh = shared && draw(2);
    for (size_t i = 0; i < o.a.size(); i++) { if (o.a[i].m == IN && sh) { ptr[i] = shared_in(o.a[i].v); bufs.push_back(nullptr); cnt("args.shared_input"); } else { Buf* b = o.a[i].m == IN ? new Buf(o.a[i].v) : new Buf(o.a[i].v.size()); bufs.push_back(b); ptr[i] = b->p; } }
    Term t; int rc = 0; bool ok; std::string abi;
    if (machine) { static const int E[] = {0, EINTR, EAGAIN, ENOMEM, ENOSYS, ERANGE}; errno = E[draw(6)]; if (draw(2)) { cnt("fault.stale_stack"); dirty_stack(draw64(), draw(5)); } }
    if (machine && o.fn && draw(2)) {
      cnt("fault.stale_registers"); Frame* f = (Frame*)alloca(sizeof(Frame) + 64); f = (Frame*)(((uintptr_t)f + 63) & ~63ull); memset(f, 0, sizeof *f); uint64_t s = draw64(); Rng r(s); r.fill(f->in, 48); switch (draw(4)) { case 0: r.fill(f->ymm, 512); break; case 1: memset(f->ymm, 0xff, 512); break; case 2: { for (int i = 0; i < 256; i++) ((uint16_t*)f->ymm)[i] = r.next(); } break; default: break; }
      uint32_t mx = 0x1f80; int mode = draw(6); if (mode) { mx |= (mode & 3) << 13; if (draw(2)) mx |= 0x8040; cnt("fault.fp_mode"); } if (draw(3) == 2) mx |= 0x3f; f->mxcsr = mx; static const uint16_t CW[] = {0x37f, 0x27f, 0x7f, 0xf7f, 0xb7f, 0x77f}; f->cw = CW[draw(6)];
      long args[6] = {}; for (size_t i = 0; i < o.cargs.size(); i++) args[i] = o.cargs[i] >= 0 ? (long)ptr[o.cargs[i]] : -1 - o.cargs[i]; void* fn = o.fn;
      ok = libcall(o.name.c_str(), t, [&] { rc = (int)sim_tcall(fn, args, f); }); fpu_default();
      if (ok) { if (memcmp(f->in, f->out, 48)) abi = "a callee-saved register"; if (f->flags & 0x400) abi = "the direction flag"; if ((f->mxcsr_out ^ mx) & 0xffc0) abi = "the SSE control register"; if ((f->env[0] & 0xffff) != f->cw) abi = "the x87 control word"; if ((f->env[2] & 0xffff) != 0xffff) abi = "the x87/MMX register stack (left non-empty)"; if (o.kind == OP_SHA3) rc = 0; }
    } else ok = libcall(o.name.c_str(), t, [&] { rc = o.call(ptr); });
    set_ledger(cur, oldl);
    if (ok) {
      op_expect(o, l.bytes);
      for (size_t i = 0; i < o.a.size(); i++) { if (o.a[i].m == STATE) continue; u8* q = ptr[i]; cnt("checked.outputs", o.a[i].m == OUT); if (memcmp(q, o.a[i].v.data(), o.a[i].v.size())) { size_t d = 0; while (q[d] == o.a[i].v[d]) d++; violation(o.a[i].m == IN ? "input-modified" : "wrong-result", "%s %s: %s differs from the result of the same call alone from byte %zu of %zu (%02x instead of %02x)", o.k->name.c_str(), o.name.c_str(), o.a[i].name, d, o.a[i].v.size(), q[d], o.a[i].v[d]); } }
      if (rc) violation("wrong-result", "%s %s returned %d", o.k->name.c_str(), o.name.c_str(), rc);
      if (!abi.empty()) violation("machine-state", "%s %s does not restore %s of its caller", o.k->name.c_str(), o.name.c_str(), abi.c_str());
      cnt((std::string("done.") + o.name).c_str());
    } else if (t.how != "abandoned") violation("terminated", "%s %s terminated the process (%s)", o.k->name.c_str(), o.name.c_str(), t.how.c_str());
    for (size_t i = bufs.size(); i--;) delete bufs[i]; arena_reset(am);
    return ok;
  }
  Kem* pickk(int mode, int K0, int i0) { int i = i0, K = K0; if (mode & 1) i = draw(2); if (mode & 2) K = 2 + draw(3); return k[tsan][i][K]; }
  std::set<Lib*> active; int plantn = 0;
  // -------------------------------------------------------------- C08
  void c08() {
    int nt = 2 + draw(4), mode = draw(4), K0 = 2 + draw(3), i0 = draw(2), nops = 1 + draw(tsan ? 3 : 4), scale = tsan ? 3 + draw(16) : 0; shared = draw(2); gen.related = draw(4) == 3; int focus = draw(4); if (focus == 1) { for (int& w : gen.weights) w = 0; gen.weights[draw(OP_N)] = 1; if (gen.weights[OP_X4] || gen.weights[OP_X4INC]) i0 = 1, mode &= ~1; }
    sample("%s threads=%d mode=%d K=%d ops=%d scale=%d shared=%d", tsan ? "access-level" : "instruction-level", nt, mode, K0, nops, scale, shared);
    static int hotbudget; hotbudget = 400;
    if (tsan) {
      slice_policy = [scale](Task*) -> int64_t { return draw(4) ? 1 + (int64_t)drawlog(1u << scale) : 0; };
      access_hook = [](uintptr_t a, unsigned, bool w, void*) { if (!rw_page(a)) return; Task* t = cur; cnt(w ? "lib.static_writes" : "lib.static_reads"); if (hotbudget > 0) { hotbudget--; if (draw(2)) { t->slice = 1 + (int64_t)drawlog(200); cnt("sched.at_shared_state"); } } };
    } else { slice_policy = nullptr; bp_action = [this](Task* t) { cnt("sched.preemptions"); sigmix(bp_pc()); if (plantn < 60) { plantn++; if (draw(2)) bp_plant_near(bp_lib(), bp_pc()); else bp_plant(bp_lib()); } yield_now(); }; }
    on_slice_end = [](Task* t) { cnt("sched.preemptions"); ev("%s preempted in %s after %lu accesses", t->name.c_str(), t->opname, (unsigned long)t->accesses); yield_now(); };
    if (!tsan) { std::vector<Kem*> ks; for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) if (((mode & 1) || i == i0) && ((mode & 2) || K == K0)) ks.push_back(k[0][i][K]); int n = 2 + draw(14); for (auto* q : ks) bp_init(q->lib); for (int i = 0; i < n; i++) bp_plant(ks[draw((uint32_t)ks.size())]->lib); }
    for (int i = 0; i < nt; i++) { int n = 1 + draw(nops); spawn("thread" + std::to_string(i), [this, n, mode, K0, i0] { for (int j = 0; j < n; j++) { Op o = gen.make(pickk(mode, K0, i0)); R->steps++; ev("%s %s", o.k->name.c_str(), o.name.c_str()); sigmix(o.kind * 31 + o.k->K); perform(o, false); } }); }
    schedule();
  }
  // -------------------------------------------------------------- C09
  int plan = 0, budget = 0; bool nesting = false; int nestmode, nestK, nesti;
  void interrupt(Task* t) {           // runs in the middle of a call of task t
    int what = plan; if (t->nest > 2) return;
    if (what == 1) { cnt("fault.nested_call"); t->nest++; int64_t sl = t->slice; int e = errno; t->slice = 0; int oldin = t->inlib; t->inlib = 0; Op o = gen.make(pickk(nestmode, nestK, nesti)); ev("nested %s %s inside %s", o.k->name.c_str(), o.name.c_str(), t->opname); if (draw(4) == 3 && t->nest < 3) t->slice = tsan ? 1 + (int64_t)drawlog(1 << 15) : 0; perform(o, false); t->inlib = oldin; t->slice = sl; errno = e; t->nest--; 
      if (budget > 0) { budget--; if (tsan) t->slice = 1 + (int64_t)drawlog(1 << 15); } }
    else if (what == 2 && t->nest == 0) { cnt("fault.longjmp_out_of_call"); ev("longjmp out of %s", t->opname); t->slice = 0; terminate_current("abandoned"); }
    else if (what == 3 && t->nest == 0) { cnt("fault.thread_killed_inside_call"); ev("thread killed in %s", t->opname); t->inlib = 0; t->jb = nullptr; abandon_current(); }
  }
  // a process that lives long: thousands of calls in the same thread, a few of them over and over
  void marathon() {
    int K = 2 + draw(3), i = draw(2), nk = 1 + draw(2); tsan = false; gen.related = false; gen.maxhash = 300; Kem* kk = k[0][i][K]; std::vector<int> kinds; static const int KD[] = {OP_DEC, OP_ENC_D, OP_KEYPAIR_D, OP_SHAKE, OP_SHA3, OP_INC, OP_RANDOM, OP_ENC, OP_KEYPAIR, OP_X4, OP_X4INC}; for (int q = 0; q < nk; q++) kinds.push_back(KD[draw(i ? 11 : 9)]); if (draw(3)) kinds[0] = OP_DEC;
    bool cheap = true; for (int q : kinds) if (q == OP_KEYPAIR || q == OP_KEYPAIR_D || q == OP_ENC || ((q == OP_DEC || q == OP_ENC_D) && i == 0)) cheap = false;
    int n = cheap ? (draw(2) ? 66000 + draw(1000) : 8000 + draw(1000)) : 5000 + draw(4000); cnt("runs.marathon"); cntmax("max.calls_in_one_process", n * nk); sample("marathon: %d x %d calls on %s", n, nk, kk->name.c_str()); sigmix(n * 64 + K * 2 + i);
    on_slice_end = nullptr; slice_policy = nullptr; access_hook = nullptr; bp_action = nullptr;
    spawn("daemon", [this, kk, kinds, n] { std::vector<Op> ops; gen.make(kk, OP_KEYPAIR_D); for (int q : kinds) for (int c = 0; c < 2; c++) { Op o = gen.make(kk, q); for (int t = 0; q == OP_DEC && c == 0 && t < 12; t++) { Bytes ss; model::DecInfo di; model::dec(*kk->P, o.a[2].v, o.a[1].v, ss, &di); if (di.accepted) break; o = gen.make(kk, q); } ops.push_back(o); }
      for (int j = 0; j < n; j++) for (size_t q = 0; q < kinds.size(); q++) { Op o = ops[2 * q + (j % 7 == 0)]; now() += 1000; perform(o, false); if (j % 4096 == 0) { ev("%s: %d done", o.name.c_str(), j); R->steps++; } } });
    schedule();
  }
  void c09() {
    if (draw(700) == 699) { marathon(); return; }
    int mode = draw(4), K0 = 2 + draw(3), i0 = draw(2); gen.related = draw(4) != 3; bool longrun = draw(40) == 39, series = !longrun && draw(10) == 9; int n = longrun ? 100 + (int)drawlog(700) : 2 + draw(tsan ? 8 : 14); int scale = 4 + draw(15); if (longrun) { tsan = false; cnt("runs.long_history"); }
    nestmode = mode; nestK = K0; nesti = i0; if (draw(3) == 2) { for (int& w : gen.weights) w = 0; gen.weights[draw(OP_N)] = 1; gen.weights[draw(3)] += 1; if (longrun) gen.weights[OP_DEC] += 1; if (gen.weights[OP_X4] || gen.weights[OP_X4INC]) i0 = nesti = 1, mode &= ~1, nestmode = mode; }
    sample("%s history of %d calls, mode=%d K=%d related=%d", tsan ? "access-level" : "instruction-level", n, mode, K0, gen.related);
    if (series) { // one call after the other of a kind abandoned half-way, then complete ones
      n = 10 + (int)drawlog(100); scale = 10 + draw(8); mode = nestmode = 0; for (int& w : gen.weights) w = 0; static const int KD[] = {OP_DEC, OP_ENC_D, OP_KEYPAIR_D, OP_ENC, OP_KEYPAIR, OP_SHAKE, OP_SHA3, OP_RANDOM}; int f = draw(12); gen.weights[KD[f < 8 ? f : 0]] = 1; cnt("runs.series_of_abandoned_calls"); }
    on_slice_end = [this](Task* t) { sigmix(t->accesses); interrupt(t); }; bp_action = [this](Task* t) { sigmix(bp_pc()); interrupt(t); };
    static int hotbudget; hotbudget = 100; slice_policy = [](Task* t) { return t->slice; };
    if (tsan) access_hook = [](uintptr_t a, unsigned, bool w, void*) { if (!rw_page(a)) return; Task* t = cur; cnt(w ? "lib.static_writes" : "lib.static_reads"); if (t->slice > 0 && hotbudget > 0) { hotbudget--; if (draw(2)) t->slice = 1 + (int64_t)drawlog(200); } };
    spawn("app", [this, n, mode, K0, i0, scale, longrun, series] {
      for (int j = 0; j < n; j++) {
        Op o = gen.make(pickk(mode, K0, i0)); R->steps++; plan = longrun ? 0 : draw(5); if (plan == 4) plan = 1; if (series) { plan = j + 4 < n && draw(8) ? 2 + (draw(6) == 5) : 0; if (j + 4 == n && draw(2)) for (int& w : gen.weights) w = 1; } budget = draw(3); sigmix(o.kind * 31 + o.k->K * 7 + plan); ev("%s %s plan=%d", o.k->name.c_str(), o.name.c_str(), plan);
        if (longrun && draw(12) == 11) { int r = 30 + (int)drawlog(220); cnt("runs.burst_of_calls"); for (int b = 0; b < r; b++) { Op c = o; perform(c, false); } }
        auto arm = [&](Task* t) { t->slice = 0; if (plan) { if (tsan) { t->slice = 1 + (int64_t)drawlog(1u << scale); } else { bp_init(o.k->lib); int b = 1 + draw(6); for (int i = 0; i < b; i++) bp_plant(o.k->lib); } } };
        if (plan == 3) { bool* fin = new bool(false); Op* po = new Op(o); Task* v = spawn("victim" + std::to_string(j), [this, po, fin] { perform(*po, true); *fin = true; }); arm(v); while (v->st != Task::DONE && v->st != Task::ABANDONED) yield_now(); if (v->st == Task::DONE) cnt("plan.not_reached"); }
        else { arm(cur); if (!perform(o, true)) cnt("outcome.abandoned"); }
        cur->slice = 0; bp_clear();
      } });
    schedule();
  }
  void run() override { tsan = draw(3) != 2; if (p == "C08") c08(); else c09(); }
};
Scenario* sc_threads(const std::string& p) { return new Threads(p); }
