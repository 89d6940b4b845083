#include "bp.h"
#include <sys/mman.h>
#include <ucontext.h>
struct BP { uint8_t byte; int hits; Lib* l; };
static std::map<uintptr_t, BP> bps; static uintptr_t rearm; static Lib* hl; static uintptr_t hpc;
std::function<void(Task*)> bp_action;
Lib* bp_lib() { return hl; } uintptr_t bp_pc() { return hpc; }
static bool trap(void* ucv) {
  ucontext_t* u = (ucontext_t*)ucv; greg_t* g = u->uc_mcontext.gregs;
  if (rearm) { auto i = bps.find(rearm); if (i != bps.end()) *(uint8_t*)rearm = 0xcc; rearm = 0; g[REG_EFL] &= ~0x100ll; if (!bps.count((uintptr_t)g[REG_RIP] - 1) || *(uint8_t*)(g[REG_RIP] - 1) != 0xcc) return true; return true; }
  uintptr_t a = (uintptr_t)g[REG_RIP] - 1; auto i = bps.find(a); if (i == bps.end()) return false;
  *(uint8_t*)a = i->second.byte; g[REG_RIP] = (greg_t)a;
  if (--i->second.hits > 0) { rearm = a; g[REG_EFL] |= 0x100; return true; }
  hl = i->second.l; hpc = a; bps.erase(i); if (cur && cur->inlib && bp_action) { cnt("bp.hits"); tr("interrupted at %s", describe_pc(a).c_str()); bp_action(cur); }
  return true;
}
void bp_init(Lib* l) { load_instructions(l); static std::set<Lib*> done; trap_hook = trap; if (!done.insert(l).second) return; uintptr_t lo = l->xlo & ~4095ul, hi = (l->xhi + 4095) & ~4095ul; if (mprotect((void*)lo, hi - lo, PROT_READ | PROT_WRITE | PROT_EXEC)) internal_error("mprotect text"); }
static void put(Lib* l, uintptr_t a, int hits) { if (bps.count(a) || rearm) return; BP b; b.byte = *(uint8_t*)a; b.hits = hits; b.l = l; bps[a] = b; *(uint8_t*)a = 0xcc; }
void bp_plant(Lib* l) {
  size_t f; if (l->ins[0].first == "@hot" && draw(2)) { f = 0; cnt("bp.hot"); } else f = l->ins[0].first == "@hot" ? 1 + draw((uint32_t)l->ins.size() - 1) : draw((uint32_t)l->ins.size());
  auto& v = l->ins[f].second; uintptr_t a = l->base + v[draw((uint32_t)v.size())]; put(l, a, 1 + (draw(2) ? (int)drawlog(80) : 0)); }
void bp_plant_near(Lib* l, uintptr_t pc) {
  for (auto& f : l->ins) { if (f.first == "@hot") continue; auto& v = f.second; uint32_t o = (uint32_t)(pc - l->base); if (o < v.front() || o > v.back()) continue; size_t i = std::lower_bound(v.begin(), v.end(), o) - v.begin(); size_t j = i + 1 + (size_t)drawlog(60); if (j >= v.size()) j = v.size() - 1; put(l, l->base + v[j], 1); return; } }
void bp_clear() { for (auto& b : bps) *(uint8_t*)b.first = b.second.byte; bps.clear(); }
