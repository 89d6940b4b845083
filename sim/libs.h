#pragma once
#include "core.h"
struct Lib { std::string path; void* h = nullptr; uintptr_t base = 0, lo = 0, hi = 0, xlo = 0, xhi = 0; std::vector<std::pair<uintptr_t, uintptr_t>> rw;
  size_t tlsmod = 0, tlssz = 0; const void* tlsimg = nullptr; size_t tlsfilesz = 0; char* tlsblk = nullptr;
  std::vector<std::pair<std::string, std::vector<uint32_t>>> ins;     // function -> instruction addresses (for breakpoints)
  void* sym(const std::string& n, bool must = true); };
extern std::vector<Lib*> libs;
Lib* load_lib(const std::string& file, int flags);
bool have_lib(const std::string& file);
Lib* lib_of(uintptr_t pc);
bool in_lib_rw(uintptr_t a);
void map_rw_pages(); bool rw_page(uintptr_t a);      // fast test: a lies in writable (non-relro) memory of a library
void load_instructions(Lib*);
typedef uint8_t u8;
struct Hash {        // fips202 interface of one library
  bool x4 = false; size_t st, stx4; 
  void (*shake_init[2])(void*); void (*shake_absorb[2])(void*, const u8*, size_t); void (*shake_finalize[2])(void*); void (*shake_squeeze[2])(u8*, size_t, void*);
  void (*shake_absorb_once[2])(void*, const u8*, size_t); void (*shake_squeezeblocks[2])(u8*, size_t, void*); void (*shake[2])(u8*, size_t, const u8*, size_t);
  void (*sha3[2])(u8*, const u8*, size_t);
  void (*x4_absorb_once[2])(void*, const u8*, const u8*, const u8*, const u8*, size_t); void (*x4_squeezeblocks[2])(u8*, u8*, u8*, u8*, size_t, void*);
  void (*x4_shake[2])(u8*, u8*, u8*, u8*, size_t, const u8*, const u8*, const u8*, const u8*, size_t);
};
const unsigned RATE[2] = {168, 136};
struct Kem { Lib* lib; int impl, K; std::string name, rb; const model::Params* P; 
  int (*keypair)(u8*, u8*); int (*keypair_derand)(u8*, u8*, const u8*); int (*enc)(u8*, u8*, const u8*); int (*enc_derand)(u8*, u8*, const u8*, const u8*); int (*dec)(u8*, const u8*, const u8*);
  void (*randombytes)(u8*, size_t); Hash hash; size_t pkb, skb, ctb; };
Kem* kem(const std::string& flavor, int impl, int K, const std::string& rb = "linux");   // loads on demand
void bind_hash(Lib*, const char* impl, Hash& h);
// convenience: calls on fresh canaried buffers inside the current task; violation "terminated" if the process dies
struct Buf { u8* p; size_t n; Buf(size_t n); Buf(const Bytes&); Bytes bytes() const { return Bytes(p, p + n); } void check(const char* what); void touch_ok(); };
bool call_keypair_derand(Kem*, const Bytes& coins, Bytes& pk, Bytes& sk);
bool call_enc_derand(Kem*, const Bytes& pk, const Bytes& m, Bytes& ct, Bytes& ss);
bool call_dec(Kem*, const Bytes& sk, const Bytes& ct, Bytes& ss);
int last_rc();
struct Side { int err; unsigned fp; uint64_t trace; int64_t time; bool operator==(const Side& o) const { return err == o.err && fp == o.fp && trace == o.trace && time == o.time; } };   // what a caller can see of dec besides its result: errno, arithmetic flags, services asked for, simulated time
const Side& last_side(); extern int side_errno;
extern bool canary_checks;
struct ArenaScope { int id; size_t p; ArenaScope(); ~ArenaScope(); };   // Bufs of a scope are gone at its end
size_t arena_mark(); void arena_reset(size_t);
