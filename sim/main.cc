// Driver: forks one process per simulated run (pristine library state), spreads runs over workers, minimises failures.
#include "core.h"
#include "libs.h"
#include "os.h"
#include "scenario.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>
#include <signal.h>
#include <fstream>
#include <sstream>
namespace sim { void seed_run(uint64_t); uint64_t* shctr; uint64_t shared_counter(int w, uint64_t a) { uint64_t v = shctr[w]; shctr[w] += a; return v; } }
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t mix(uint64_t a, uint64_t b) { return Rng(a * 0xD1342543DE82EF95ull + b).next(); }
struct Out { std::string kind, msg, log, smp; int state = 0; uint64_t hash = 0, sig = 0; std::vector<uint32_t> tape; uint64_t nev = 0, steps = 0; int64_t simtime = 0; };
static Scenario* sc; static double cpu_limit = 20;
static void do_run() {      // in the child
  struct itimerval it{}; it.it_value.tv_sec = (long)cpu_limit; setitimer(ITIMER_PROF, &it, nullptr);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); prctl(PR_SET_PDEATHSIG, SIGKILL);
  shctr = (uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  install_signals(); os_default(); sc->run(); finish_ok();
}
static void reset_result() { size_t off = offsetof(Result, tape); memset(R, 0, off); R->nstats = 0; memset(R->stats, 0, sizeof R->stats); R->nlog = 0; R->sample[0] = 0; R->log[0] = 0; }
static void child_run(uint64_t seed, const std::vector<uint32_t>* tape) {
  reset_result(); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(5); }
  if (p == 0) { if (tape) load_tape(*tape); else seed_run(seed); do_run(); }
  int st; while (waitpid(p, &st, 0) < 0) {}
  if (R->state == 0 && WIFEXITED(st) && WEXITSTATUS(st) == 127) { R->state = 2; snprintf(R->kind, sizeof R->kind, "symbol-lookup"); snprintf(R->msg, sizeof R->msg, "the dynamic loader found no definition for a symbol when it was first used"); }
  if (R->state == 0) { R->state = 3; snprintf(R->msg, sizeof R->msg, "run ended abnormally (wait status %x)", st); if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) ; } }
}
static Out take() { Out o; o.state = R->state; o.kind = R->kind; o.msg = R->msg; o.hash = R->hash; o.sig = R->sig; o.nev = R->nev; o.steps = R->steps; o.simtime = R->simtime; if (R->ntape > TAPEMAX) R->ntape = TAPEMAX; o.tape.assign(R->tape, R->tape + R->ntape); if (verbose) o.log.assign(R->log, R->nlog); o.smp = R->sample; return o; }
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static Out replay(const std::vector<uint32_t>& t) { child_run(0, &t); return take(); }
static std::vector<uint32_t> trim(std::vector<uint32_t> t) { while (!t.empty() && t.back() == 0) t.pop_back(); return t; }
static std::vector<uint32_t> minimise(std::vector<uint32_t> t, const std::string& kind, double budget, int& tries) {
  double end = wall() + budget; tries = 0; t = trim(t);
  auto ok = [&](const std::vector<uint32_t>& c) { if (wall() > end) return false; tries++; Out o = replay(c); return o.state == 2 && o.kind == kind; };
  auto take_used = [&](std::vector<uint32_t> c) { Out o = replay(c); if (o.state == 2 && o.kind == kind && o.tape.size() < c.size()) { c.resize(o.tape.size()); } return trim(c); };
  t = take_used(t);
  for (bool progress = true; progress && wall() < end;) { progress = false;
    for (size_t sz = std::max<size_t>(1, t.size() / 2); sz >= 1 && wall() < end; sz /= 2) {
      for (size_t i = 0; i < t.size() && wall() < end;) { std::vector<uint32_t> c = t; size_t e = std::min(c.size(), i + sz); c.erase(c.begin() + i, c.begin() + e); if (ok(c)) { t = trim(c); progress = true; } else i += sz; if (sz < 4 && t.size() > 3000) i += sz * 7; }
      for (size_t i = 0; i < t.size() && wall() < end; i += sz) { std::vector<uint32_t> c = t; bool any = false; for (size_t j = i; j < std::min(c.size(), i + sz); j++) if (c[j]) { c[j] = 0; any = true; } if (any && ok(c)) { t = trim(c); progress = true; } if (sz < 4 && t.size() > 3000) i += sz * 7; }
      if (sz == 1) break; }
    for (size_t i = 0; i < t.size() && wall() < end; i++) if (t[i] > 1) for (uint32_t v : {1u, t[i] / 2, t[i] - 1}) { std::vector<uint32_t> c = t; c[i] = v; if (ok(c)) { t = c; progress = true; break; } }
    t = trim(t); }
  return t;
}
struct Shared { volatile long next; volatile long stop; volatile long done; };
int main(int argc, char** argv) {
  std::map<std::string, std::string> a; for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  bool lazy = a["--prop"] == "C13";
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(ADDR_NO_RANDOMIZE); char* e[] = {(char*)(lazy ? "LANG=C" : "LD_BIND_NOW=1"), nullptr}; execve("/proc/self/exe", argv, e); perror("execve"); return 5; }
  prop = a["--prop"]; builddir = a["--build"]; tier = a.count("--tier") ? a["--tier"] : "quick"; if (a.count("--cpu")) cpu_limit = atof(a["--cpu"].c_str());
  R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sc = make_scenario(prop); if (!sc) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 5; }
  verbose = a.count("--replay") || a.count("--verbose"); sc->load(); if (cpu_limit < sc->cpu_limit()) cpu_limit = sc->cpu_limit();
  if (a.count("--replay")) {                                                       // tape file: numbers
    std::ifstream f(a["--replay"]); std::vector<uint32_t> t; uint32_t x; while (f >> x) t.push_back(x);
    Out o = replay(t); printf("{\"state\":%d,\"kind\":%s,\"msg\":%s,\"hash\":\"%016lx\",\"events\":%lu,\"log\":%s,\"sample\":%s}\n", o.state, jstr(o.kind).c_str(), jstr(o.msg).c_str(), o.hash, o.nev, jstr(o.log).c_str(), jstr(o.smp).c_str()); return 0; }
  uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 0); long count = atol(a["--count"].c_str()); double wcap = atof(a["--wall"].c_str()); int workers = atoi(a["--workers"].c_str()); double minb = a.count("--min") ? atof(a["--min"].c_str()) : 15; std::string dir = a["--out"];
  uint64_t sseed = mix(seed, hashbytes(prop.data(), prop.size())); long only = a.count("--only") ? atol(a["--only"].c_str()) : -1;
  Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->stop = count; sh->next = 0;
  double t0 = wall(); std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) { pid_t p = fork(); if (p) { pids.push_back(p); continue; }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::map<std::string, int64_t> st; std::set<uint64_t> sigs, hashes; uint64_t runs = 0, nev = 0, steps = 0; int64_t simt = 0; std::string smp; std::ofstream f(dir + "/w" + std::to_string(w)); std::ofstream hf; if (a.count("--hashes")) hf.open(dir + "/h" + std::to_string(w)); uint64_t bad = 0;
    for (;;) { long i = __sync_fetch_and_add(&sh->next, 1); if (only >= 0) { if (w || i) break; i = only; } else if (i >= sh->stop || i >= count) break; if (wall() - t0 > wcap) break;
      child_run(mix(sseed, i), nullptr); Out o = take(); runs++; nev += o.nev; steps += o.steps; simt += o.simtime; if (hf.is_open()) hf << i << " " << std::hex << o.hash << std::dec << " " << o.state << " " << o.kind << std::endl;
      for (int k = 0; k < R->nstats; k++) { auto& q = st[R->stats[k].name]; q = strncmp(R->stats[k].name, "max.", 4) ? q + R->stats[k].v : std::max<int64_t>(q, R->stats[k].v); } sigs.insert(o.sig); hashes.insert(o.hash); if (smp.size() < 3000 && !o.smp.empty()) smp += "run " + std::to_string(i) + ": " + o.smp + "\n";
      if (a.count("--verbose")) fprintf(stderr, "%s", o.log.c_str());
      if (o.state == 3) { bad++; f << "E " << i << " " << o.msg << "\n"; if (bad > 3) break; }
      if (o.state == 2) { long s; do { s = sh->stop; if (i >= s) break; } while (!__sync_bool_compare_and_swap(&sh->stop, s, i)); f << "V " << i << " " << o.kind << "\n"; std::ofstream tf(dir + "/tape" + std::to_string(i)); for (auto x : o.tape) tf << x << "\n"; break; } }
    f << "N " << runs << " " << nev << " " << steps << " " << simt << "\n"; for (auto& k : st) f << "S " << k.first << " " << k.second << "\n"; for (auto x : sigs) f << "G " << std::hex << x << std::dec << "\n"; for (auto x : hashes) f << "H " << std::hex << x << std::dec << "\n";
    std::istringstream ss(smp); std::string line; while (std::getline(ss, line)) f << "M " << line << "\n"; f.close(); _exit(0); }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
  // aggregate
  std::map<std::string, int64_t> st; std::set<std::string> sigs, hashes; uint64_t runs = 0, nev = 0, steps = 0; int64_t simt = 0; long vi = -1; std::string vk; std::vector<std::string> errs, smps;
  for (int w = 0; w < workers; w++) { std::ifstream f(dir + "/w" + std::to_string(w)); std::string line; bool end = false; while (std::getline(f, line)) { std::istringstream s(line); char c; s >> c; if (c == 'N') { uint64_t x, y, z; int64_t q; s >> x >> y >> z >> q; runs += x; nev += y; steps += z; simt += q; end = true; } else if (c == 'S') { std::string n; int64_t v; s >> n >> v; if (n.compare(0, 4, "max.") == 0) st[n] = std::max(st[n], v); else st[n] += v; } else if (c == 'G') { std::string x; s >> x; sigs.insert(x); } else if (c == 'H') { std::string x; s >> x; hashes.insert(x); } else if (c == 'M') smps.push_back(line.substr(2)); else if (c == 'E') errs.push_back(line); else if (c == 'V') { long i; std::string k; s >> i >> k; if (vi < 0 || i < vi) { vi = i; vk = k; } } } if (!end) errs.push_back("worker " + std::to_string(w) + " died"); }
  double t1 = wall(); std::vector<uint32_t> orig, mint; int tries = 0;
  if (vi >= 0) { std::ifstream f(dir + "/tape" + std::to_string(vi)); uint32_t x; while (f >> x) orig.push_back(x); verbose = false; mint = minimise(orig, vk, minb, tries); std::ofstream g(dir + "/min"); for (auto v : mint) g << v << "\n"; std::ofstream h(dir + "/orig"); for (auto v : orig) h << v << "\n"; }
  printf("{\"runs\":%lu,\"events\":%lu,\"steps\":%lu,\"simtime_ns\":%ld,\"distinct_sig\":%zu,\"distinct_hash\":%zu,\"wall\":%.2f,\"stopped_early\":%s,\"violation_run\":%ld,\"kind\":%s,\"tape_orig\":%zu,\"tape_min\":%zu,\"min_tries\":%d,\"errors\":[", runs, nev, steps, simt, sigs.size(), hashes.size(), t1 - t0, (long)runs < count ? "true" : "false", vi, jstr(vk).c_str(), orig.size(), mint.size(), tries);
  for (size_t i = 0; i < errs.size(); i++) printf("%s%s", i ? "," : "", jstr(errs[i]).c_str());
  printf("],\"samples\":["); for (size_t i = 0; i < smps.size() && i < 12; i++) printf("%s%s", i ? "," : "", jstr(smps[i]).c_str());
  printf("],\"stats\":{"); bool first = true; for (auto& k : st) { printf("%s%s:%ld", first ? "" : ",", jstr(k.first).c_str(), k.second); first = false; } printf("}}\n");
  return 0;
}
