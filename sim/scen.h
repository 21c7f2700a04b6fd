// Shared by the scenarios: contexts with every operation, networks, references.
#pragma once
#include "core.h"
#include <algorithm>
#include <deque>
#include <unordered_set>
#include <memory>
struct Out { CallStatus st = C_OK; i64 ret = 0; Bytes b; std::map<size_t, Bytes> mod; /* inputs the call changed, by argument */ const Bytes &held(size_t i, const Bytes &was) const { auto m = mod.find(i); return m == mod.end() ? was : m->second; } bool operator==(const Out &o) const { return st == o.st && ret == o.ret && b == o.b; } };
std::vector<std::string> variants(const std::string &kind);       // library names of one kind this simulator can run
struct Ctx {
  Lib *l; Node *nd; Buf mem; int gm; const Ops *o;
  Ctx(Lib *lib, Node *n, u64 residue, int guard = 0);
  void fresh(u64 residue);                                         // new memory for the context (same object)
  Out init(const Bytes &key, const Bytes &iv, const CallOpt & = CallOpt());
  Out load_key(const Bytes &key, const CallOpt & = CallOpt());
  Out load_iv(const Bytes &iv, const CallOpt & = CallOpt());
  Out process(const Bytes &in, int mode, const CallOpt & = CallOpt());
  Out cblock(u64 ctr, const CallOpt & = CallOpt());
  Out seal(const Bytes &pt, const Bytes &ad, const Bytes &iv, const CallOpt & = CallOpt());       // b = ct || tag
  Out open(const Bytes &ct, const Bytes &tag, const Bytes &ad, const Bytes &iv, const CallOpt & = CallOpt()); // b = pt buffer
  Out tag(const Bytes &m, int tl, const CallOpt & = CallOpt());
  Out validate(const Bytes &tag, const Bytes &m, bool adjacent, const CallOpt & = CallOpt());
  Out sha(const Bytes &m, const CallOpt & = CallOpt());
  Out hexenc(const Bytes &m, const CallOpt & = CallOpt());
  Out hexdec(const Bytes &text, const CallOpt & = CallOpt());
  Out md5_init(const CallOpt & = CallOpt());
  Out md5_update(const Bytes &m, const CallOpt & = CallOpt());
  Out md5_final(const CallOpt & = CallOpt());
  Out md5_packet(const Bytes &m, const CallOpt & = CallOpt());
  Out des_key(const Bytes &k, bool dec, const CallOpt & = CallOpt());
  Out des_ecb(const Bytes &m, const CallOpt & = CallOpt());
  Out des_ctr(const Bytes &m, const Bytes &nonce, const CallOpt & = CallOpt());
  Out des_block(const Bytes &m, const CallOpt & = CallOpt());
  typedef std::map<Bytes, Bytes> Ring;                             // the caller keeps its keys in memory and loads them from there again: key -> what that memory holds now
  std::shared_ptr<Ring> ring{new Ring};
private:
  Bytes kept(const Bytes &key) const { auto k = ring->find(key); return k == ring->end() ? key : k->second; }
  Out keyed(Out r, const Bytes &key) { auto m = r.mod.find(0); if (m != r.mod.end()) (*ring)[key] = m->second; return r; }
  Out run(const CallOpt &, size_t work, std::vector<Buf *> bufs, const std::function<i64()> &f, Buf *out, Buf *out2 = nullptr);
};
CallOpt copt(i64 residue, i64 stop = -1);
Bytes ref_stream(const Lib *l, const Bytes &key, const Bytes &iv, size_t n);   // keystream of a packet keyed with (key, iv)
Bytes xorb(const Bytes &a, const Bytes &b);
inline Bytes sub(const Bytes &b, size_t o, size_t n) { return o >= b.size() ? Bytes() : Bytes(b.begin() + o, b.begin() + std::min(b.size(), o + n)); }
inline Bytes cat(const Bytes &a, const Bytes &b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes vb(const uint8_t *p, size_t n) { return Bytes(p, p + n); }
// Channel fates. args of a sending step carry: fate, a, b, delay
enum Fate { FT_OK, FT_DROP, FT_DUP, FT_CORRUPT, FT_TRUNC, FT_EXTEND, FT_SPLICE, FT_REPLAY, FT_N };
struct Msg { int id; Bytes data; bool intact; int fate; i64 first_flip = -1, last_flip = -1; };
struct Net {
  struct E { i64 due; u64 ord; Msg m; };
  std::vector<E> q; std::vector<Msg> log; u64 ord = 0; bool part = false; u64 lastdelivered = 0; bool have = false;
  void send(i64 now, const Msg &m, i64 fate, i64 a, i64 b, i64 delay);
  std::vector<Msg> due(i64 now);
  std::vector<Msg> drain() { return due(INT64_MAX); }
};
void gen_fate(Rng &r, std::vector<i64> &a, int faultpct, bool reorder = true);   // pushes fate, a, b, delay
void flip_bits(Bytes &d, i64 nbits, i64 seed, i64 *first = nullptr, i64 *last = nullptr);
i64 gen_tick(Rng &r);
extern u64 GEN_INDEX;                                                           // the run a plan is being made for
i64 rare(u64 n);                                                                // once in n runs, spread evenly: which time it is, or -1
void cpu_limit(int more);                                                       // seconds of processor time this run may still use
void soak(Rng &r, Plan &p, const std::vector<i64> &rest = {});          // now and then, put a step "soak" into a plan: hundreds, thousands or 70000 ordinary exchanges in a row
i64 hugearg(Rng &r, i64 nth);                                                   // for hugelen, every second time beyond the power
void enlarge(Rng &r, Plan &p, const char *op, size_t arg, int permille, int top = 21);   // now and then, make one or two packets of a run really long
Bytes stream_key(const Ops *o, u64 seed, i64 len);
size_t hugelen(size_t around, i64 v);                               // a length just below or above a power of two, often one where padding changes
Bytes related(const std::vector<Bytes> &used, i64 seed, size_t len);   // new, used before, or one bit away from one used before
Bytes stream_iv(const Lib *l, const Bytes &key, i64 seed);
#define RUNSTEPS(p, i, s) for (size_t i = 0; i < (p).steps.size(); i++) if (const Step *s##_ = &(p).steps[i]) if (at_step(i, *s##_), true) if (const Step &s = *s##_; true)
// A unit is one context with a uniform set of operations, for the scenarios
// that mix every algorithm of the toolbox.
struct Unit {
  Lib *l = nullptr; virtual ~Unit() {}
  virtual Out op(const std::vector<i64> &a, const CallOpt &) = 0;    // a: code, size, seed, e1, e2
  virtual void rekey(u64 residue) = 0;                               // (re-)initialise the context
  virtual Ctx *ctx() { return nullptr; }                             // the context, if it is plain data
};
std::unique_ptr<Unit> make_unit(Lib *l, Node *n, u64 keyseed, i64 klen, u64 residue, int guard);
std::unique_ptr<Unit> make_gmp_unit(Lib *l, Node *n, u64 keyseed, u64 residue);
void gen_op(Rng &r, std::vector<i64> &a, int maxsize);               // pushes code, size, seed, e1, e2
std::vector<std::string> unit_libs(bool gmp);
