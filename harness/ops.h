// Catalogue of library operations as data: generate a call, run it, predict its result with the reference.
#pragma once
#include "hy.h"
enum OpId { OP_KEYSEED, OP_KEYRAND, OP_CSIGN, OP_COPEN, OP_CVERIFY, OP_FSIGN, OP_FOPEN, OP_FVERIFY, OP_EXPAND, OP_WRAP, OP_VDIL,
  OP_DKEY, OP_DSIGN, OP_DOPEN, OP_SKEY, OP_SSIGN, OP_SOPEN, OP_EKEY, OP_ESIGN, OP_EOPEN, OP_BKEY, OP_BOX, OP_SECRETBOX, OP_SHA512, OP_SHAKE, OP_SHA3, OP_STREAM, OP_X25519, OP_INCR, OP_POLY, OP_RANDOM, OP_COUNT };
extern const char* op_name[];
struct Call { OpId op; Bytes key, msg, sig, extra; uint64_t rng; bool good; unsigned form = 0; };   // good: an open/verify that must succeed
struct Out { int rc; Bytes data, raw; };   // data: defined outputs on success; raw: every output buffer as it was left
struct Alloc {                       // how buffers are provided to the call
  uint8_t* base = nullptr; size_t pos = 0, cap = 0; uint8_t fill = 0xA5;
  bool guard = false, left = false;
  bool direct = false;               // use the inputs in the Call where they are (shared between threads)
  bool raw = false;                  // fill in Out::raw
};
bool op_draws(OpId o);               // consumes randomness
unsigned op_forms(OpId o);           // how many functions an operation stands for; Call::form selects one
bool op_heavy(OpId o);               // SPHINCS+ signing
Call gen_call(Gen& g, const std::vector<OpId>& allowed);
Out run_call(const Call& c, Alloc& a);       // does not reset the random source
Out expect_call(const Call& c);              // reference result for the random stream of c.rng
std::vector<OpId> ops_all(bool heavy);
