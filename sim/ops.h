// One API call with explicit arguments and the model's expected outputs; used by C08, C09, C10.
#pragma once
#include "core.h"
#include "libs.h"
#include "os.h"
enum ArgMode { IN, OUT, STATE };
struct OArg { ArgMode m; Bytes v; const char* name; size_t align = 1; };   // IN: content; OUT: expected content; STATE: scratch of that size
struct Op { std::string name; Kem* k = nullptr; int kind = 0; std::vector<OArg> a; std::function<int(u8**)> call; bool random = false; bool deferred = false; std::function<void(Op&, const Bytes&)> expect; void* fn = nullptr; std::vector<long> cargs; };   // cargs: argument index or -1-value
enum { OP_KEYPAIR_D, OP_ENC_D, OP_DEC, OP_KEYPAIR, OP_ENC, OP_RANDOM, OP_SHAKE, OP_SHA3, OP_INC, OP_X4, OP_X4INC, OP_N };
struct Pool { std::vector<Bytes> coins, msgs, pks, sks, cts, in, genuine; std::vector<std::pair<int, int>> pairs; int K = 0; };   // values seen in this run, per K
struct OpGen { std::map<int, Pool> pools; bool related = false; int weights[OP_N] = {3, 4, 5, 1, 1, 1, 2, 1, 2, 2, 2}; size_t maxhash = 1200;
  Op make(Kem* k); Bytes pick(std::vector<Bytes>& v, size_t n, std::function<Bytes()> fresh); Op make(Kem* k, int kind); };
void op_expect(Op& o, const Bytes& entropy);               // fills in expected outputs of a deferred operation
