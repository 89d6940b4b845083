#include <list>
// C10: calls touch exactly the buffers they were given.  Arguments are placed against unmapped pages, in read-only pages,
// at every alignment, and packed against memory that another simulated thread keeps changing during the call.
#include "ops.h"
#include "bp.h"
#include "scenario.h"
#include <cerrno>
#include <sys/mman.h>
static u8* const BASE = (u8*)0x250000000000ull; static const size_t SIZE = 64 << 20;
struct Range { u8* p; size_t n; ArgMode m; const char* name; const char* op; int owner; };
static std::map<u8*, Range> ranges;                                // declared argument ranges of calls in progress (by start address)
struct Gap { u8* p; Bytes v; std::string where; };
static std::list<Gap>* gapsp;
static std::string where(uintptr_t a) {                               // describes an address of the arena relative to the nearest argument
  std::string best = "?"; size_t bd = SIZE_MAX; for (auto& r : ranges) { uintptr_t s = (uintptr_t)r.second.p, e = s + r.second.n; size_t d = a < s ? s - a : a >= e ? a - e + 1 : 0; if (d < bd) { bd = d; char t[200]; if (a < s) snprintf(t, 200, "%zu bytes before %s", (size_t)(s - a), r.second.name); else if (a >= e) snprintf(t, 200, "%zu bytes past the end of %s (%zu bytes)", (size_t)(a - e + 1), r.second.name, r.second.n); else snprintf(t, 200, "byte %zu of %s", (size_t)(a - s), r.second.name); best = t; } } return best; }
struct Buffers : Scenario {
  Kem* k[2][2][5] = {}; OpGen gen; bool tsan; std::list<Gap> gaps; int working = 0; size_t cursor = 4096; int plantn = 0;
  void load() override { for (int f = 0; f < 2; f++) for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) k[f][i][K] = kem(f ? "tsan" : "ship", i, K); for (int i = 0; i < 2; i++) for (int K = 2; K <= 4; K++) load_instructions(k[0][i][K]->lib); map_rw_pages(); }
  static bool segv(void* uc, uintptr_t a, bool write) {
    if (!cur || !cur->inlib || a < (uintptr_t)BASE || a >= (uintptr_t)BASE + SIZE) return false;
    violation(write ? "out-of-bounds-write" : "out-of-bounds-read", "%s %s memory it was not given: %s", cur->opname, write ? "writes" : "reads", where(a).c_str()); }
  static void access(uintptr_t a, unsigned n, bool w, void* pc) {
    if (a >= (uintptr_t)BASE + SIZE || a + n <= (uintptr_t)BASE) return;
    auto i = ranges.upper_bound((u8*)a); bool in = false; if (i != ranges.begin()) { --i; Range* r = &i->second; if (a >= (uintptr_t)r->p && a + n <= (uintptr_t)r->p + r->n) { in = true; if (w && r->m == IN) violation("input-modified", "%s writes byte %zu of its input %s", cur->opname, (size_t)(a - (uintptr_t)r->p), r->name); } 
      else { uintptr_t q = a; for (; i != ranges.end() && (uintptr_t)i->second.p <= q && q < a + n; ++i) { q = std::max(q, (uintptr_t)i->second.p + i->second.n); if (w && i->second.m == IN) violation("input-modified", "%s writes its input %s", cur->opname, i->second.name); } in = q >= a + n; } }   // an access may span adjacent arguments of this call
    cnt("checked.accesses"); if (!in) violation(w ? "out-of-bounds-write" : "out-of-bounds-read", "%s %s %u bytes of memory it was not given: %s", cur->opname, w ? "writes" : "reads", n, where(a).c_str()); }
  u8* pages(size_t n) { u8* s = BASE + cursor; size_t r = (n + 4095) & ~4095ull; cursor += r + 4096; if (cursor > SIZE) internal_error("arena"); mprotect(s, r, PROT_READ | PROT_WRITE); return s; }
  void addgap(u8* p, size_t n, const char* w) { if (!n) return; Bytes v(n); Rng r((uint64_t)p * 77 + n); r.fill(v.data(), n); memcpy(p, v.data(), n); gaps.push_back({p, v, w}); }
  void verify(Gap& g, const char* when) { if (memcmp(g.p, g.v.data(), g.v.size())) { size_t i = 0; while (g.p[i] == g.v[i]) i++; violation("neighbour-modified", "%s: memory of another thread changed (%s): %s", when, where((uintptr_t)g.p + i).c_str(), cur->opname); } }
  std::vector<u8*> held_guards; size_t cursor0 = 4096;
  void perform(Op& o) {
    u8* ptr[12] = {}; struct Pg { u8* s; size_t n; bool ro; }; std::vector<Pg> pgs; auto gbegin = gaps.end(); size_t ng0 = gaps.size(); std::vector<std::list<Gap>::iterator> mine; std::map<Bytes, int> seen; Ledger l, *ol = ledger_of(cur); set_ledger(cur, &l); bool packed = draw(3) == 2; std::string lay; size_t NA = o.a.size();
    auto gap = [&](u8* p, size_t n, const char* w) { if (!n) return; addgap(p, n, w); mine.push_back(--gaps.end()); };
    std::vector<size_t> order; for (size_t i = 0; i < NA; i++) order.push_back(i); if (packed) for (size_t i = NA; i > 1; i--) std::swap(order[i - 1], order[draw((uint32_t)i)]);
    auto place = [&](size_t i, u8* p) { ptr[i] = p; Range r{p, o.a[i].v.size(), o.a[i].m, o.a[i].name, o.name.c_str(), cur->id}; if (r.n) ranges[p] = r; };
    if (packed) { cnt("layout.packed"); size_t tot = 256; for (auto& a : o.a) tot += a.v.size() + 128; u8* s = pages(tot + 64); size_t cap = (tot + 64 + 4095) & ~4095ull; u8* q = s + draw(64); gap(s, q - s, "before the first argument"); pgs.push_back({s, cap, false});
      for (size_t t = 0; t < NA; t++) { size_t i = order[t]; size_t g = draw(3) ? draw(48) : 0; size_t al = o.a[i].align; u8* p = q + g; p = (u8*)(((uintptr_t)p + al - 1) & ~(al - 1)); gap(q, p - q, "between arguments"); if (o.a[i].v.empty()) { ptr[i] = p; q = p; continue; } place(i, p); q = p + o.a[i].v.size(); }
      gap(q, 64, "after the last argument"); }
    else for (size_t i = 0; i < NA; i++) { size_t n = o.a[i].v.size(), al = o.a[i].align; if (o.a[i].m == IN && seen.count(o.a[i].v) && draw(2)) { ptr[i] = ptr[seen[o.a[i].v]]; cnt("layout.shared_input"); continue; } if (o.a[i].m == IN) seen[o.a[i].v] = (int)i;
      int how = draw(6); size_t off = 0, cap = (n + 64 + 4095) & ~4095ull; u8* s = pages(n + 64); bool ro = o.a[i].m == IN && draw(3) != 2;
      switch (how) { case 0: case 1: case 2: off = cap - n; cnt("layout.ends_at_unmapped_page"); break; case 3: off = 0; cnt("layout.starts_after_unmapped_page"); break; case 4: off = cap - n - std::min<size_t>(cap - n, 1 + draw(63)); cnt("layout.unaligned"); break; case 5: off = draw((uint32_t)std::min<size_t>(cap - n, 64) + 1); cnt("layout.unaligned"); break; }
      off &= ~(al - 1); u8* p = s + off; if (n) place(i, p); else ptr[i] = p; if (!ro) { if (off) gap(p - std::min<size_t>(off, 64), std::min<size_t>(off, 64), "before an argument"); size_t r = cap - off - n; if (r) gap(p + n, std::min<size_t>(r, 64), "after an argument"); } pgs.push_back({s, cap, ro}); if (ro) cnt("layout.read_only_input"); sigmix(how * 64 + (off & 63)); }
    for (size_t i = 0; i < NA; i++) { if (o.a[i].v.empty()) continue; if (o.a[i].m == IN) memcpy(ptr[i], o.a[i].v.data(), o.a[i].v.size()); else { Rng r(7 + i); if (draw(2)) r.fill(ptr[i], o.a[i].v.size()); else memset(ptr[i], draw(2) ? 0xA7 : 0, o.a[i].v.size()); } }
    for (auto& g : pgs) if (g.ro) mprotect(g.s, g.n, PROT_READ);
    Term t; int rc = 0; if (!libcall(o.name.c_str(), t, [&] { rc = o.call(ptr); })) violation("terminated", "%s terminated the process (%s)", o.name.c_str(), t.how.c_str());
    cur->opname = o.name.c_str(); set_ledger(cur, ol); op_expect(o, l.bytes); cnt((std::string("done.") + o.name).c_str());
    for (auto g : mine) { verify(*g, "after the call"); }
    for (size_t i = 0; i < NA; i++) { if (o.a[i].m == STATE || o.a[i].v.empty()) continue; cnt("checked.arguments"); if (memcmp(ptr[i], o.a[i].v.data(), o.a[i].v.size())) { size_t d = 0; while (ptr[i][d] == o.a[i].v[d]) d++; violation(o.a[i].m == IN ? "input-modified" : "wrong-output", "%s %s: %s[%zu] is %02x, expected %02x (buffer at page offset %zu)", o.k->name.c_str(), o.name.c_str(), o.a[i].name, d, ptr[i][d], o.a[i].v[d], (size_t)ptr[i] & 4095); } }
    if (rc) violation("wrong-output", "%s returned %d", o.name.c_str(), rc);
    for (auto g : mine) gaps.erase(g); for (size_t i = 0; i < NA; i++) ranges.erase(ptr[i]); for (auto& g : pgs) mprotect(g.s, g.n, PROT_NONE);
  }
  void run() override {
    tsan = draw(2); int nt = 1 + draw(3), mode = draw(4), K0 = 2 + draw(3), i0 = draw(2), scale = 3 + draw(15); gen.related = false; gen.maxhash = 700; for (int i = OP_SHAKE; i < OP_N; i++) gen.weights[i] = 1 + draw(2);
    if (draw(4) == 3) { int f = draw(OP_N); for (int& w : gen.weights) w = 0; gen.weights[f] = 1; if (f >= OP_X4) i0 = 1, mode &= ~1; }
    u8* r = (u8*)mmap(BASE, SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (r != BASE) internal_error("arena mmap"); segv_hook = segv;
    if (tsan) { access_hook = access; slice_policy = [scale](Task*) -> int64_t { return draw(4) ? 1 + (int64_t)drawlog(1u << scale) : 0; }; on_slice_end = [](Task*) { cnt("sched.preemptions"); yield_now(); }; }
    else { bp_action = [this](Task*) { cnt("sched.preemptions"); if (plantn < 80) { plantn++; if (draw(2)) bp_plant_near(bp_lib(), bp_pc()); else bp_plant(bp_lib()); } yield_now(); }; }
    sample("%s threads=%d mode=%d K=%d", tsan ? "access-level" : "instruction-level", nt, mode, K0); working = nt;
    for (int i = 0; i < nt; i++) { int n = 1 + draw(6); spawn("thread" + std::to_string(i), [this, n, mode, K0, i0] { for (int j = 0; j < n; j++) { int im = mode & 1 ? draw(2) : i0, K = mode & 2 ? 2 + draw(3) : K0; Kem* q = k[tsan][im][K]; if (!tsan && working > 0 && plantn < 60) { bp_init(q->lib); int b = draw(5); for (int t = 0; t < b; t++) { plantn++; bp_plant(q->lib); } } Op o = gen.make(q); R->steps++; sigmix(o.kind); ev("%s %s", o.k->name.c_str(), o.name.c_str()); perform(o); } working--; }); }
    spawn("neighbour", [this] { while (working > 0) { for (auto& g : gaps) { verify(g, "during the call"); Rng r(draw64()); r.fill(g.v.data(), g.v.size()); memcpy(g.p, g.v.data(), g.v.size()); cnt("neighbour.writes"); } yield_now(); } });
    schedule();
  }
};
Scenario* sc_buffers(const std::string&) { return new Buffers; }
