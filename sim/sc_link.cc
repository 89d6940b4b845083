// C13: the shared libraries as the Makefiles build them, loaded by the real dynamic loader in tape-chosen orders, visibilities,
// binding modes, copies, unloads and reloads, while simulated threads use them; plus all of them linked statically into one program.
#include "libs.h"
#include "scenario.h"
#include "os.h"
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <iterator>
static const char* IMPLX[2] = {"ref", "avx2"}; static const int KB[5] = {0, 0, 512, 768, 1024};
static std::map<Task*, Bytes> given;
extern "C" void randombytes(u8* p, size_t n) { Rng r(0xA99 + shared_counter(1, n + 1)); r.fill(p, n); Bytes& g = given[cur]; g.insert(g.end(), p, p + n); yield_point(cur); }   // provided by the application
struct File { std::string path, label, prefix; int kind, impl, K; std::vector<std::string> exports; bool ok = true; };   // kind 0 KEM, 1 hash, 2 parallel hash, 3 everything linked into one program, 4 program linked against all shared libraries
struct Inst { File* f; void* h; Lib* lib; bool global, lazy; int busy = 0; bool fresh = true; std::vector<Kem*> kems; std::vector<std::pair<int, Hash>> hashes; };
static std::vector<std::string> exports_of(const std::string& path) {
  std::ifstream f(path, std::ios::binary); std::string d((std::istreambuf_iterator<char>(f)), {}); std::vector<std::string> v; if (d.size() < 64) return v;
  auto* e = (Elf64_Ehdr*)d.data(); auto* s = (Elf64_Shdr*)(d.data() + e->e_shoff);
  for (int i = 0; i < e->e_shnum; i++) if (s[i].sh_type == SHT_DYNSYM) { auto* y = (Elf64_Sym*)(d.data() + s[i].sh_offset); const char* st = d.data() + s[s[i].sh_link].sh_offset; for (size_t k = 1; k < s[i].sh_size / sizeof *y; k++) if (y[k].st_shndx != SHN_UNDEF && ELF64_ST_BIND(y[k].st_info) != STB_LOCAL && ELF64_ST_VISIBILITY(y[k].st_other) == STV_DEFAULT) v.push_back(st + y[k].st_name); }
  return v; }
static std::string slurp(const std::string& p) { std::ifstream f(p); return std::string((std::istreambuf_iterator<char>(f)), {}); }
struct Link : Scenario {
  std::vector<File> files[2][2]; std::string staterr[2], apierr; std::map<std::string, const unsigned*> sizes; std::vector<Inst*> in; bool tsan = false; int fl = 0; int workers_left = 0;
  void load() override {
    for (int f = 0; f < 2; f++) for (int c = 0; c < 2; c++) { std::string d = builddir + "/shared/" + (f ? "tsan" : "ship") + (c ? "2" : ""); 
      for (int i = 0; i < 2; i++) { std::string b = d + "/" + IMPLX[i] + "/lib"; for (int K = 2; K <= 4; K++) add(f, c, {b + "pqcrystals_kyber" + std::to_string(KB[K]) + "_" + IMPLX[i] + ".so", std::string("kyber") + std::to_string(KB[K]) + "_" + IMPLX[i], std::string("pqcrystals_kyber") + std::to_string(KB[K]) + "_" + IMPLX[i] + "_", 0, i, K});
        add(f, c, {b + "pqcrystals_fips202_ref.so", std::string("fips202_") + IMPLX[i], std::string("pqcrystals_kyber_fips202_") + IMPLX[i] + "_", 1, i, 0}); }
      add(f, c, {d + "/avx2/libpqcrystals_fips202x4_avx2.so", "fips202x4_avx2", "pqcrystals_kyber_fips202x4_avx2_", 2, 1, 0});
      if (!c) { if (access((d + "/static.so").c_str(), R_OK) == 0) add(f, c, {d + "/static.so", "static program", "", 3, 0, 0}); for (int k = 0; k < 4; k++) add(f, c, {d + "/app" + std::to_string(k) + ".so", "program " + std::to_string(k), "", 4, k, 0}); } 
      staterr[f] = slurp(builddir + "/shared/" + (f ? "tsan" : "ship") + "/static.err"); }
    apierr = slurp(builddir + "/shared/api.err"); if (apierr.empty()) { readsizes(); } }
  void readsizes() { // the tables are plain data; read them from a text file written at build time
    std::ifstream f(builddir + "/shared/api.sizes"); std::string line; while (std::getline(f, line)) { std::istringstream s(line); std::string n; s >> n; unsigned* v = new unsigned[11]; for (int i = 0; i < 11; i++) s >> v[i]; if (s) sizes[n] = v; } }
  void add(int f, int c, File x) { if (access(x.path.c_str(), R_OK)) { fprintf(stderr, "missing %s\n", x.path.c_str()); _exit(4); } x.exports = exports_of(x.path); files[f][c].push_back(x); }
  static bool linker_made(const std::string& s) { return s == "_init" || s == "_fini" || s == "__bss_start" || s == "_edata" || s == "_end" || s == "_start"; }
  void namespaces(File& f) { if (f.kind > 2) return; if (f.exports.empty()) violation("namespace", "%s exports nothing", f.label.c_str()); cnt("checked.exported_symbols", (int64_t)f.exports.size());
    for (auto& s : f.exports) if (s.compare(0, f.prefix.size(), f.prefix) && !linker_made(s)) violation("namespace", "%s exports %s, which is outside its namespace %s*", f.label.c_str(), s.c_str(), f.prefix.c_str()); }
  bool have(int kind, int impl) { for (auto* i : in) if (i->global && i->f->kind == kind && i->f->impl == impl) return true; return false; }
  bool depsof(int impl) { return have(1, impl) && (!impl || have(2, 1)); }
  bool deps(File* f) { return f->kind != 0 || depsof(f->impl); }
  void* symbol(Inst* i, const std::string& n) { void* p = nullptr; if (i->global && draw(3) == 2) { p = dlsym(RTLD_DEFAULT, n.c_str()); cnt("lookup.global"); } else { p = dlsym(i->h, n.c_str()); cnt("lookup.handle"); } if (!p) violation("missing-symbol", "%s does not provide %s", i->f->label.c_str(), n.c_str()); return p; }
  Kem* bindkem(Inst* i, int impl, int K) { Kem* k = new Kem; k->lib = i->lib; k->impl = impl; k->K = K; k->P = &model::params(K); k->name = i->f->label + ":" + IMPLX[impl] + "/" + std::to_string(KB[K]); std::string n = std::string("pqcrystals_kyber") + std::to_string(KB[K]) + "_" + IMPLX[impl] + "_";
    *(void**)&k->keypair = symbol(i, n + "keypair"); *(void**)&k->keypair_derand = symbol(i, n + "keypair_derand"); *(void**)&k->enc = symbol(i, n + "enc"); *(void**)&k->enc_derand = symbol(i, n + "enc_derand"); *(void**)&k->dec = symbol(i, n + "dec"); k->pkb = k->P->pkb(); k->skb = k->P->skb(); k->ctb = k->P->ctb(); return k; }
  void bindhash1(Inst* i, int impl) { Hash h{}; std::string n = std::string("pqcrystals_kyber_fips202_") + IMPLX[impl] + "_"; *(void**)&h.shake[0] = symbol(i, n + "shake128"); *(void**)&h.shake[1] = symbol(i, n + "shake256"); *(void**)&h.sha3[0] = symbol(i, n + "sha3_256"); *(void**)&h.sha3[1] = symbol(i, n + "sha3_512"); i->hashes.push_back({impl, h}); }
  void bindhash4(Inst* i) { Hash h{}; h.x4 = true; for (int s = 0; s < 2; s++) *(void**)&h.x4_shake[s] = symbol(i, std::string("pqcrystals_kyber_fips202x4_avx2_") + (s ? "shake256x4" : "shake128x4")); i->hashes.push_back({2, h}); }
  void bind(Inst* i) { File* f = i->f; if (f->kind == 0) i->kems.push_back(bindkem(i, f->impl, f->K)); else if (f->kind == 1) bindhash1(i, f->impl); else if (f->kind == 2) bindhash4(i); else { for (int q = 0; q < 2; q++) { for (int K = 2; K <= 4; K++) i->kems.push_back(bindkem(i, q, K)); bindhash1(i, q); } bindhash4(i); } }
  std::set<std::pair<int, int>> everglobal;   // KEM libraries that were opened globally: they may interpose functions of a program's instance, so they too need their hash libraries
  bool open_lib(File* f, int flags) {
    cnt("loads"); bool ok = deps(f); ev("load %s%s%s%s%s", f->label.c_str(), flags & RTLD_GLOBAL ? " global" : "", flags & RTLD_LAZY ? " lazy" : "", flags & RTLD_DEEPBIND ? " deepbind" : "", ok ? "" : " (before its hash libraries)"); sigmix(hashbytes(f->label.data(), f->label.size()) + flags);
    void* h = dlopen(f->path.c_str(), flags); if (!h) { const char* e = dlerror(); if (ok) violation("load-failed", "%s cannot be loaded: %s", f->label.c_str(), e); cnt("fault.load_before_dependency_refused"); return false; }
    if (!ok) cnt("fault.load_before_dependency_lazy"); if (flags & RTLD_LAZY) cnt("mode.lazy"); if (flags & RTLD_GLOBAL && f->kind == 0) everglobal.insert({f->impl, f->K}); if (flags & RTLD_GLOBAL) cnt("mode.global"); else cnt("mode.local"); if (flags & RTLD_DEEPBIND) cnt("mode.deepbind");
    namespaces(*f); Inst* i = new Inst{f, h, nullptr, (flags & RTLD_GLOBAL) != 0, (flags & RTLD_LAZY) != 0}; for (auto* j : in) if (j->f->kind != 3) i->fresh = false; bind(i); in.push_back(i); return true; }   // a program loaded into a process that already has some of its libraries shares their (possibly still unresolved) instances
  void close_lib(size_t x) { Inst* i = in[x]; ev("unload %s", i->f->label.c_str()); cnt("fault.unload"); in.erase(in.begin() + x); dlclose(i->h); }
  std::vector<std::pair<Inst*, int>> usable() { std::vector<std::pair<Inst*, int>> v; for (auto* i : in) { if (i->f->kind == 0) { if (deps(i->f)) v.push_back({i, 0}); } else { for (size_t k = 0; k < i->kems.size(); k++) if (i->f->kind == 3 || (i->fresh && !everglobal.count({i->kems[k]->impl, i->kems[k]->K})) || depsof(i->kems[k]->impl)) v.push_back({i, (int)k}); } for (size_t k = 0; k < i->hashes.size(); k++) v.push_back({i, -1 - (int)k}); } return v; }
  void same(const Bytes& got, const Bytes& want, Kem* k, const char* what) { cnt("checked.outputs"); if (got != want) violation("wrong-result", "%s: wrong %s (%s build)", k->name.c_str(), what, tsan ? "instrumented" : "optimised"); }
  void header(Kem* k) { auto it = sizes.find(std::string(IMPLX[k->impl]) + std::to_string(k->K)); if (it == sizes.end()) return; const unsigned* s = it->second; cnt("checked.header_sizes");
    unsigned want[11] = {(unsigned)k->P->pkb(), (unsigned)k->P->skb(), (unsigned)k->P->ctb(), 32, 64, 32, (unsigned)k->P->pkb(), (unsigned)k->P->skb(), (unsigned)k->P->ctb(), 32, (unsigned)k->K}; static const char* N[] = {"PUBLICKEYBYTES", "SECRETKEYBYTES", "CIPHERTEXTBYTES", "BYTES", "KEYPAIRCOINBYTES", "ENCCOINBYTES", "kem.h CRYPTO_PUBLICKEYBYTES", "kem.h CRYPTO_SECRETKEYBYTES", "kem.h CRYPTO_CIPHERTEXTBYTES", "kem.h CRYPTO_BYTES", "KYBER_K"};
    for (int i = 0; i < 11; i++) if (s[i] != want[i]) violation("header-size", "%s: header publishes %s = %u, the library works with %u", k->name.c_str(), N[i], s[i], want[i]); }
  void use() {
    auto u = usable(); if (u.empty()) return; auto x = u[draw((uint32_t)u.size())]; Inst* i = x.first; i->busy++; R->steps++; size_t am = arena_mark();
    if (x.second >= 0) kemcalls++;
    if (x.second >= 0) { Kem* k = i->kems[x.second]; const model::Params& P = *k->P; header(k); ev("use %s", k->name.c_str()); cnt("uses.kem"); Bytes pk, sk, ct, ss, wp, ws, wc, wk; 
      if (draw(3) == 2) { u8 *a = (new Buf(k->pkb))->p, *b = (new Buf(k->skb))->p; given[cur].clear(); Term t; if (!libcall("keypair", t, [&] { k->keypair(a, b); })) violation("terminated", "%s keypair terminated", k->name.c_str()); Bytes g = given[cur]; cnt("application_entropy_calls"); if (g.size() >= 64) { model::keygen(P, g.data(), wp, ws); same(Bytes(a, a + k->pkb), wp, k, "public key"); same(Bytes(b, b + k->skb), ws, k, "secret key"); } else violation("wrong-result", "%s keypair used %zu bytes of the application's random source", k->name.c_str(), g.size()); }
      else { Bytes c = blob(64); model::keygen(P, c.data(), wp, ws); if (!call_keypair_derand(k, c, pk, sk)) violation("terminated", "%s keypair_derand terminated", k->name.c_str()); same(pk, wp, k, "public key"); same(sk, ws, k, "secret key"); }
      if (draw(2)) { Bytes m = blob(32); model::enc(P, wp, m.data(), wc, wk); call_enc_derand(k, wp, m, ct, ss); same(ct, wc, k, "ciphertext"); same(ss, wk, k, "shared secret"); if (draw(2)) { if (draw(2)) wc[draw((uint32_t)wc.size())] ^= 1 << draw(8); model::dec(P, ws, wc, wk); Bytes s; call_dec(k, ws, wc, s); same(s, wk, k, "decapsulated secret"); } } }
    else { auto& hh = i->hashes[-1 - x.second]; Hash& h = hh.second; ev("use hash %s", i->f->label.c_str()); cnt("uses.hash"); size_t n = draw(400), m = 1 + draw(400); int f = draw(h.x4 ? 2 : 4); if (f >= 2) m = f == 2 ? 32 : 64; Term t; 
      if (!h.x4) { Bytes b = blob(n); u8 *q = (new Buf(b))->p, *o = (new Buf(m))->p; libcall("hash", t, [&] { if (f < 2) h.shake[f](o, m, q, n); else h.sha3[f - 2](o, q, n); }); Bytes w = f == 0 ? model::shake128(b, m) : f == 1 ? model::shake256(b, m) : f == 2 ? model::sha3_256(b) : model::sha3_512(b); cnt("checked.outputs"); if (Bytes(o, o + m) != w) violation("wrong-result", "%s: wrong hash %d", i->f->label.c_str(), f); }
      else { Bytes b[4]; u8 *q[4], *o[4]; for (int l = 0; l < 4; l++) { b[l] = blob(n); q[l] = (new Buf(b[l]))->p; o[l] = (new Buf(m))->p; } libcall("hash", t, [&] { h.x4_shake[f](o[0], o[1], o[2], o[3], m, q[0], q[1], q[2], q[3], n); }); for (int l = 0; l < 4; l++) { cnt("checked.outputs"); if (Bytes(o[l], o[l] + m) != (f ? model::shake256(b[l], m) : model::shake128(b[l], m))) violation("wrong-result", "%s: wrong parallel hash", i->f->label.c_str()); } } }
    arena_reset(am); i->busy--; if (x.second >= 0) kemcalls--; }
  int kemcalls = 0;   // no hash library is unloaded while a KEM call is in progress
  void loader(int n) {
    auto& F0 = files[fl][0]; auto& F1 = files[fl][1];
    while (n-- > 0) { int a = draw(8); std::vector<size_t> idle; for (size_t i = 0; i < in.size(); i++) if (!in[i]->busy && !(kemcalls && (in[i]->f->kind == 1 || in[i]->f->kind == 2))) idle.push_back(i);
      if (a == 6 && !idle.empty()) close_lib(idle[draw((uint32_t)idle.size())]);
      else if (a == 7 && !in.empty() && idle.size() == in.size()) { ev("unload everything"); cnt("fault.unload_everything"); while (!in.empty()) close_lib(draw((uint32_t)in.size())); }
      else { File* f = nullptr; if (draw(3)) { int w = draw(4); std::vector<File*> c; for (auto& x : F0) if (w == 3 ? x.kind == 0 : x.kind == 1 || x.kind == 2) c.push_back(&x); f = c[draw((uint32_t)c.size())]; } else { auto& F = draw(4) == 3 ? F1 : F0; f = &F[draw((uint32_t)F.size())]; if (&F == &F1) cnt("second_copy_of_a_library"); }
        if (f->kind == 3) cnt("form.static_program"); if (f->kind == 4) cnt("form.linked_program"); 
        int flags = draw(2) ? RTLD_LAZY : RTLD_NOW; if (f->kind == 1 || f->kind == 2 ? draw(4) != 3 : draw(2)) flags |= RTLD_GLOBAL; if (draw(6) == 5) flags |= RTLD_DEEPBIND; if (!deps(f)) flags &= ~RTLD_GLOBAL;   // otherwise its unresolved functions would interpose those of a working program
        open_lib(f, flags); 
        if (in.size() > 1 && draw(5) == 4) { for (auto* j : in) if (j->f == f && j != in.back()) { cnt("loaded_twice"); break; } } }
      if (workers_left) yield_now(); }
    loading = false; }
  // a real thread of the process that makes one round of calls and may live on, parked, until after the library it used is gone
  struct Visitor { pthread_t t; sem_t done, leave; std::function<void()> f; };
  std::vector<Visitor*> visitors;
  void visitor() {
    auto u = usable(); std::vector<std::pair<Inst*, int>> c; for (auto& x : u) if (x.second >= 0) c.push_back(x); if (c.empty()) return;
    auto x = c[draw((uint32_t)c.size())]; Kem* k = x.first->kems[x.second]; const model::Params& P = *k->P; size_t am = arena_mark(); Bytes co = blob(64), m = blob(32), wp, ws, wc, wk; model::keygen(P, co.data(), wp, ws); model::enc(P, wp, m.data(), wc, wk);
    u8 *pc = (new Buf(co))->p, *pm = (new Buf(m))->p, *pk = (new Buf(k->pkb))->p, *sk = (new Buf(k->skb))->p, *ct = (new Buf(k->ctb))->p, *s1 = (new Buf(32))->p, *s2 = (new Buf(32))->p;
    Visitor* v = new Visitor; sem_init(&v->done, 0, 0); sem_init(&v->leave, 0, 0); v->f = [=] { k->keypair_derand(pk, sk, pc); k->enc_derand(ct, s1, pk, pm); k->dec(s2, ct, sk); };
    ev("another thread uses %s", k->name.c_str()); cnt("uses.kem_in_other_thread"); R->steps++;
    const char* oldop = cur->opname; cur->opname = "a round of calls in another thread"; cur->inlib = 1;
    if (pthread_create(&v->t, nullptr, [](void* a) -> void* { Visitor* v = (Visitor*)a; v->f(); sem_post(&v->done); while (sem_wait(&v->leave)) {} return nullptr; }, v)) internal_error("thread");
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 60; while (sem_timedwait(&v->done, &ts)) if (errno == ETIMEDOUT) violation("no-progress", "%s: a round of calls in another thread does not finish", k->name.c_str());
    cur->inlib = 0; cur->opname = oldop;
    same(Bytes(pk, pk + k->pkb), wp, k, "public key in another thread"); same(Bytes(sk, sk + k->skb), ws, k, "secret key in another thread"); same(Bytes(ct, ct + k->ctb), wc, k, "ciphertext in another thread");
    same(Bytes(s1, s1 + 32), wk, k, "shared secret in another thread"); same(Bytes(s2, s2 + 32), wk, k, "decapsulated secret in another thread"); arena_reset(am); visitors.push_back(v); }
  void visitor_leaves() { size_t i = draw((uint32_t)visitors.size()); Visitor* v = visitors[i]; visitors.erase(visitors.begin() + i); ev("a thread that used a library ends"); cnt(in.empty() ? "fault.thread_outlives_libraries" : "threads_ended"); const char* oldop = cur->opname; cur->opname = "the end of a thread that had used a library"; cur->inlib = 1; sem_post(&v->leave); pthread_join(v->t, nullptr); cur->inlib = 0; cur->opname = oldop; sem_destroy(&v->done); sem_destroy(&v->leave); delete v; }
  bool loading = true;
  void run() override {
    if (!staterr[0].empty() || !staterr[1].empty()) { ev("link all objects into one program"); violation("link-conflict", "the libraries cannot be linked into one program: %.600s", (staterr[0].empty() ? staterr[1] : staterr[0]).c_str()); }
    if (!apierr.empty()) { ev("compile api.h with kem.h"); violation("header-mismatch", "api.h contradicts the library's functions: %.600s", apierr.c_str()); }
    fl = draw(3) == 2; tsan = fl; int nt = draw(2) ? 1 + draw(3) : 0; workers_left = nt; static const int SC[] = {6, 9, 12}; int scale = SC[draw(3)]; int n = 4 + draw(18);
    if (tsan) { slice_policy = [scale](Task*) { return 1 + (int64_t)drawlog(1u << scale); }; on_slice_end = [](Task*) { cnt("sched.preemptions"); yield_now(); }; }
    sample("%s build, %d threads, %d loader steps", tsan ? "instrumented" : "optimised", nt, n);
    spawn("loader", [this, n, nt] { if (nt) loader(n); else { for (int i = 0; i < n; i++) { loader(1); for (int u = draw(3); u > 0; u--) use(); if (!tsan && draw(4) == 3) visitor(); if (!visitors.empty() && draw(4) == 3) visitor_leaves(); } for (int i = 0; i < 5; i++) use();
        if (!visitors.empty() && draw(3)) { ev("unload everything"); while (!in.empty()) close_lib(draw((uint32_t)in.size())); } while (!visitors.empty()) visitor_leaves(); } });
    for (int t = 0; t < nt; t++) spawn("worker" + std::to_string(t), [this] { for (int j = 0; j < 6; j++) { use(); yield_now(); } workers_left--; });
    schedule(); cnt("libraries_loaded_at_end", (int64_t)in.size()); }
};
Scenario* sc_link(const std::string&) { return new Link; }
