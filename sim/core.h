// Simulator core: one run = one plan = one exactly repeatable execution.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <csetjmp>
#include "ops.h"
#include "refs.h"
typedef std::vector<uint8_t> Bytes;
typedef int64_t i64; typedef uint64_t u64;

// ---- randomness: everything comes from the plan's seed
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool pct(int p) { return below(100) < (u64)p; }
};
Bytes content(u64 seed, size_t n);          // bytes named by a seed (seed%16: 0 zeroes, 1 ones, else random)
i64 gsize(Rng &r, i64 max);                 // sizes biased to block boundaries, 0 and 1
u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull);
inline u64 mix(u64 a, u64 b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; return a ^ (a >> 33); }

// ---- plans
struct Step { std::string op; std::vector<i64> a; i64 arg(size_t i) const { return i < a.size() ? a[i] : 0; } };
struct Plan {
  std::string prop; u64 seed = 0; std::map<std::string, i64> cfg; std::vector<Step> steps;
  i64 get(const std::string &k) const { auto it = cfg.find(k); return it == cfg.end() ? 0 : it->second; }
  void add(const char *op, std::vector<i64> a = {}) { steps.push_back(Step{op, a}); }
  std::string text() const;
  bool parse(const std::string &s);
};
inline u64 pos(i64 v) { return v < 0 ? (u64)(-(v + 1)) : (u64)v; }      // any int -> non-negative
inline u64 modn(i64 v, u64 n) { return n ? pos(v) % n : 0; }

// ---- faults and results
enum Fault { F_DROP, F_DUP, F_REORDER, F_DELAY, F_CORRUPT, F_TRUNC, F_EXTEND, F_SPLICE, F_REPLAY, F_PARTITION, F_CRASH, F_RESTART, F_ABANDON,
  F_ALLOC, F_TORN, F_LOSTW, F_MISPLACED, F_STALEW, F_BITROT, F_DISKFULL, F_PREEMPT, F_CLOCK, F_ENTROPY, F_RESIDUE, F_REKEY, F_WRONGKEY, F_CHECKPOINT,
  F_MIGRATE, F_STALL, F_FORGE, F_RETRY, F_N };
extern const char *fault_names[];
struct Shared {
  volatile int step; volatile int done; char op[48]; char cls[64]; char msg[900];
  u64 hash, sig, simtime, ticks, calls, checks; u64 faults[F_N]; volatile int nontrivial;
};
extern Shared *SH;
extern bool VERBOSE;
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fault(Fault f, u64 n = 1) { SH->faults[f] += n; SH->nontrivial = 1; }
inline void ev(u64 v) { SH->hash = mix(SH->hash, v); }
void ev(const Bytes &b);
inline void sig(u64 v) { SH->sig = mix(SH->sig, v); }
inline void simtime(u64 us) { SH->simtime += us; }
inline void checked(u64 n = 1) { SH->checks += n; }
void at_step(size_t i, const Step &s);
std::string hex(const uint8_t *p, size_t n, size_t max = 48);
inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }

// ---- components
struct Lib { std::string name, path; const Ops *o; int rounds; bool reduced; std::vector<std::pair<uint8_t *, size_t>> seg; Bytes pristine; };
Lib *lib(const std::string &name);          // loads on first use; fails the process if missing
bool has_lib(const std::string &name);
void load_all_libs();
void images_reset(Lib *);                   // a new process: static storage as loaded

// A node is a simulated process: its own copy of each library's static storage.
struct Node {
  std::map<Lib *, Bytes> img; bool shared = false;
  void enter(Lib *l); void restart();
};
void node_none();

// ---- buffers. mode 0: plain memory with slack; 1: flush against the guard page behind; 2: flush against the guard page in front
struct Buf {
  uint8_t *p = nullptr; size_t n = 0; int mode = 0; uint8_t *slot = nullptr; size_t cap = 0; int cls = -1; Bytes before; bool input = false;
  Buf() {}
  Buf(size_t n_, int mode_ = 0, u64 fill = 7, size_t align = 1);
  Buf(const Bytes &b, int mode_ = 0, u64 fill = 7);     // an input: must come back unmodified
  Buf(Buf &&o) noexcept { *this = std::move(o); }
  Buf &operator=(Buf &&o) noexcept;
  Buf(const Buf &) = delete;
  ~Buf();
  bool canaries_ok() const; bool unmodified() const;
  Bytes bytes() const { return Bytes(p, p + n); }
};

// A huge buffer: one 64 MB block of memory that repeats throughout an address range
struct Alias { static const size_t BLOCK = 1 << 26; uint8_t *p; size_t n; Alias(size_t total, u64 seed); ~Alias(); Alias(const Alias &) = delete; };

// ---- library calls
enum CallStatus { C_OK = 0, C_STOPPED, C_BADALLOC, C_EXC };
struct CallOpt {
  i64 stop_at = -1;            // abandon the call at this tick
  i64 fail_alloc = -1;         // fail the n-th allocation of the call (0-based) ...
  i64 fail_alloc_n = 1;        // ... and how many from there on
  u64 residue = 0;             // what stack and fresh heap hold before the call (0: leave)
  size_t depth = 12288;        // how much stack
  u64 work = 0;                // bytes of work, for the step budget
  Bytes echo;                  // residue kind 3: these bytes, repeated
};
struct CallRec { u64 ticks = 0, next = ~0ull, budget = ~0ull, stop = ~0ull; int depth = 0; bool in_lib = false; i64 allocs = 0, fail_at = -1, fail_n = 0; u64 failed = 0; u64 fill = 0; jmp_buf jb; bool can_stop = false;
  std::vector<u64> switches; };
extern CallRec *CUR;
CallStatus libcall(const CallOpt &, const std::function<void()> &);
extern u64 LAST_TICKS, LAST_ALLOCS, LAST_FAILED;

// ---- allocator accounting
struct HeapStat { i64 blocks, bytes; };
HeapStat heap_lib();                        // blocks obtained inside library calls and still held
HeapStat heap_gmp();
bool heap_canaries_ok();

// ---- simulated clock, entropy, files
void sim_clock_set(u64 us); void sim_entropy_set(u64 seed); void sim_gmp_default_seed(u64 seed);   // 0: GMP's own default
extern u64 ENTROPY_USES, CLOCK_USES;
u64 output_bytes();                         // bytes written to fd 1 and 2 so far
extern u64 FILE_WRITES;
void capture_output();
void output_discard();

// ---- threads under a baton
struct Task { std::function<void()> fn; std::vector<std::pair<u64, int>> preempt; /* (global tick of this task, target) */ CallRec rec; u64 total = 0; bool done = false; void *impl = nullptr; };
void run_tasks(std::vector<Task> &tasks, int first);
void run_on_thread(const std::function<void()> &, size_t stack = 64ul << 20);
void run_far(const std::function<void()> &, int where);

// ---- scenarios
struct Scenario { const char *id; Plan (*gen)(Rng &, int tier); void (*exec)(const Plan &); };
const Scenario *scenario(const std::string &id);
