#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <new>
#include <iostream>
#include <algorithm>
#include <link.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <alloca.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
Shared *SH; bool VERBOSE = false; static int trace_fd = -1;
const char *fault_names[] = {"message_dropped", "message_duplicated", "messages_reordered", "message_delayed", "message_corrupted", "message_truncated",
  "message_extended", "messages_spliced", "old_message_replayed", "partition_drop", "crash_inside_call", "node_restart", "call_abandoned", "allocation_failed",
  "torn_write", "lost_write", "misplaced_write", "stale_write", "bit_rot", "disk_full", "preemption", "clock_jump", "entropy_change", "memory_residue",
  "rekey", "wrong_key", "checkpoint_restore", "node_migrated", "node_stalled", "message_forged", "operation_retried", 0};

Bytes content(u64 seed, size_t n) {
  Bytes b(n); Rng r(seed ^ 0xC0FFEE);
  switch (seed & 15) {
    case 0: break;
    case 1: std::fill(b.begin(), b.end(), 0xff); break;
    case 2: for (auto &x : b) { static const uint8_t t[4] = {0, 1, 0x80, 0xff}; x = t[r.below(4)]; } break;
    default: for (size_t i = 0; i < n; i += 8) { u64 v = r.next(); memcpy(&b[i], &v, std::min<size_t>(8, n - i)); }
  }
  return b;
}
i64 gsize(Rng &r, i64 max) {
  i64 v;
  switch (r.below(12)) {
    case 0: v = 0; break;
    case 1: v = 1; break;
    case 2: case 3: v = r.range(1, 15); break;
    case 4: case 5: v = 16 * r.range(1, 8); break;
    case 6: v = 16 * r.range(1, 8) + r.range(-1, 1); break;
    case 7: v = 64 * r.range(1, 4) + r.range(-10, 10); break;
    case 8: v = 64 * r.range(1, 32) + r.range(-9, 1); break;
    case 9: v = r.range(0, 300); break;
    case 10: v = r.range(16, 64); break;
    default: v = r.pct(30) ? r.range(0, max) : r.range(0, 1100);
  }
  return std::min(v, max);
}
u64 fnv(const void *p, size_t n, u64 h) { const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
void ev(const Bytes &b) { ev(fnv(b.data(), b.size())); }
std::string hex(const uint8_t *p, size_t n, size_t max) { std::string s; char t[3]; for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 3, "%02x", p[i]); s += t; } if (n > max) s += ".."; return s; }

std::string Plan::text() const {
  std::string s = "prop " + prop + "\nseed " + std::to_string(seed) + "\n";
  for (auto &c : cfg) s += "cfg " + c.first + " " + std::to_string(c.second) + "\n";
  for (auto &t : steps) { s += "step " + t.op; for (i64 v : t.a) s += " " + std::to_string(v); s += "\n"; }
  return s;
}
bool Plan::parse(const std::string &s) {
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size();
    std::string l = s.substr(i, e - i); i = e + 1;
    std::vector<std::string> w; size_t k = 0;
    while (k < l.size()) { while (k < l.size() && l[k] == ' ') k++; size_t b = k; while (k < l.size() && l[k] != ' ') k++; if (k > b) w.push_back(l.substr(b, k - b)); }
    if (w.empty() || w[0][0] == '#') continue;
    if (w[0] == "prop" && w.size() > 1) prop = w[1];
    else if (w[0] == "seed" && w.size() > 1) seed = strtoull(w[1].c_str(), 0, 10);
    else if (w[0] == "cfg" && w.size() > 2) cfg[w[1]] = strtoll(w[2].c_str(), 0, 10);
    else if (w[0] == "step" && w.size() > 1) { Step st; st.op = w[1]; for (size_t j = 2; j < w.size(); j++) st.a.push_back(strtoll(w[j].c_str(), 0, 10)); steps.push_back(st); }
  }
  return !prop.empty();
}
void tr(const char *fmt, ...) {
  if (!VERBOSE) return;
  char b[2000]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  b[n] = '\n'; int r = ::write(trace_fd >= 0 ? trace_fd : 1, b, n + 1); (void)r;
}
void fail(const char *cls, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(SH->msg, sizeof SH->msg, fmt, ap); va_end(ap);
  snprintf(SH->cls, sizeof SH->cls, "%s", cls);
  tr("  !! %s: %s", cls, SH->msg);
  SH->done = 2; _exit(3);
}
void at_step(size_t i, const Step &s) {
  SH->step = (int)i; snprintf(SH->op, sizeof SH->op, "%s", s.op.c_str());
  if (VERBOSE) { std::string t; for (i64 v : s.a) t += " " + std::to_string(v); tr("step %zu: %s%s", i, s.op.c_str(), t.c_str()); }
}

// ---------------------------------------------------------------- components
static std::vector<std::pair<uintptr_t, uintptr_t>> statics;
static std::map<std::string, Lib> libs;
static std::string libdir() { const char *d = getenv("SIM_LIBDIR"); return d ? d : "."; }
static int phdr_cb(struct dl_phdr_info *i, size_t, void *data) {
  Lib *l = (Lib *)data;
  if (!i->dlpi_name || l->path != i->dlpi_name) return 0;
  uintptr_t ro_end = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) ro_end = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &p = i->dlpi_phdr[k];
    if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
    uintptr_t a = i->dlpi_addr + p.p_vaddr, e = a + p.p_memsz;
    if (ro_end > a && ro_end <= e) a = ro_end;
    if (a < e) l->seg.push_back({(uint8_t *)a, e - a});
  }
  return 1;
}
bool has_lib(const std::string &n) { if (const char *e = getenv("SIM_LIBS")) return ("," + std::string(e) + ",").find("," + n + ",") != std::string::npos; if (libs.count(n)) return true; return access((libdir() + "/" + n + ".so").c_str(), R_OK) == 0; }
Lib *lib(const std::string &n) {
  auto it = libs.find(n);
  if (it != libs.end()) return &it->second;
  Lib &l = libs[n]; l.name = n; l.path = libdir() + "/" + n + ".so";
  void *h = dlopen(l.path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(9); }
  auto f = (const Ops *(*)())dlsym(h, "cx_ops");
  if (!f) { fprintf(stderr, "no cx_ops in %s\n", n.c_str()); _exit(9); }
  l.o = f(); l.rounds = 20; l.reduced = n == "cfb.rr";
  if (n == "chacha.r8") l.rounds = 8;
  if (n == "chacha.r12") l.rounds = 12;
  dl_iterate_phdr(phdr_cb, &l);
  for (auto &s : l.seg) { l.pristine.insert(l.pristine.end(), s.first, s.first + s.second); statics.push_back({(uintptr_t)s.first, (uintptr_t)s.first + s.second}); }
  return &l;
}
void load_all_libs() {
  const char *s = getenv("SIM_LIBS"); if (!s) return;
  std::string t = s; size_t i = 0;
  while (i < t.size()) { size_t e = t.find(',', i); if (e == std::string::npos) e = t.size(); if (e > i) lib(t.substr(i, e - i)); i = e + 1; }
}
static void img_save(Lib *l, Bytes &b) { b.clear(); for (auto &s : l->seg) b.insert(b.end(), s.first, s.first + s.second); }
static void img_load(Lib *l, const Bytes &b) { size_t o = 0; for (auto &s : l->seg) { memcpy(s.first, &b[o], s.second); o += s.second; } }
void images_reset(Lib *l) { img_load(l, l->pristine); }
static std::map<Lib *, Node *> owner;
void Node::enter(Lib *l) {
  if (shared) return;
  Node *&o = owner[l];
  if (o == this) return;
  if (o) img_save(l, o->img[l]);
  auto it = img.find(l);
  img_load(l, it == img.end() ? l->pristine : it->second);
  o = this;
}
void Node::restart() {
  if (shared) { for (auto &l : libs) images_reset(&l.second); return; }
  img.clear();
  for (auto &o : owner) if (o.second == this) images_reset(o.first);
}

// ---------------------------------------------------------------- buffers
static const size_t PG = 4096;
static const size_t SLACK = 192;
struct Slot { uint8_t *map; size_t pages; };
static std::map<size_t, std::vector<uint8_t *>> slot_free;
static uint8_t *slot_get(size_t pages) {
  auto &f = slot_free[pages];
  if (!f.empty()) { uint8_t *s = f.back(); f.pop_back(); return s; }
  uint8_t *m = (uint8_t *)mmap(0, (pages + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED || mprotect(m + PG, pages * PG, PROT_READ | PROT_WRITE)) { fprintf(stderr, "mmap\n"); _exit(9); }
  return m + PG;
}
Buf::Buf(size_t n_, int mode_, u64 fill, size_t align) : n(n_), mode(mode_) {
  if (!mode) { cap = n + 2 * SLACK; slot = (uint8_t *)malloc(cap + 64); p = slot + SLACK; p += (64 - ((uintptr_t)p & 63)) & 63; }
  else {
    size_t pages = (n + PG - 1) / PG + (n % PG == 0 ? 0 : 0); if (!pages) pages = 1;
    cls = (int)pages; cap = pages * PG; slot = slot_get(pages);
    p = mode == 1 ? slot + cap - n : slot;
    if (align > 1) p = (uint8_t *)((uintptr_t)p & ~(align - 1));
    memset(slot, 0xA5, p - slot); memset(p + n, 0xA5, slot + cap - (p + n));
  }
  Rng r(fill); u64 k = fill % 5;
  if (!mode) { uint8_t *e = slot + cap; for (uint8_t *q = slot; q < p; q++) *q = r.next(); for (uint8_t *q = p + n; q < e; q++) *q = r.next(); }
  if (k == 0) memset(p, 0, n); else if (k == 1) memset(p, 0xff, n); else for (size_t i = 0; i < n; i += 8) { u64 v = r.next(); memcpy(p + i, &v, std::min<size_t>(8, n - i)); }
}
Buf::Buf(const Bytes &b, int mode_, u64 fill) : Buf(b.size(), mode_, fill) { if (n) memcpy(p, b.data(), n); before = b; input = true; }
Buf &Buf::operator=(Buf &&o) noexcept {
  if (this == &o) return *this;
  this->~Buf();
  p = o.p; n = o.n; mode = o.mode; slot = o.slot; cap = o.cap; cls = o.cls; before = std::move(o.before); input = o.input;
  o.p = o.slot = nullptr; o.n = 0; return *this;
}
Buf::~Buf() { if (!slot) return; if (mode) slot_free[cls].push_back(slot); else free(slot); slot = nullptr; }
bool Buf::canaries_ok() const {
  if (!mode) return true;
  for (uint8_t *q = slot; q < p; q++) if (*q != 0xA5) return false;
  for (uint8_t *q = p + n; q < slot + cap; q++) if (*q != 0xA5) return false;
  return true;
}
bool Buf::unmodified() const { return !input || !n || memcmp(p, before.data(), n) == 0; }

Alias::Alias(size_t total, u64 seed) : n((total + BLOCK - 1) / BLOCK * BLOCK) {
  int fd = memfd_create("alias", 0); p = (uint8_t *)mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (fd < 0 || p == MAP_FAILED || ftruncate(fd, BLOCK)) { fprintf(stderr, "alias\n"); _exit(9); }
  for (size_t o = 0; o < n; o += BLOCK) if (mmap(p + o, BLOCK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "alias\n"); _exit(9); }
  close(fd); Rng r(seed); for (size_t i = 0; i < BLOCK; i += 8) { u64 v = r.next(); memcpy(p + i, &v, 8); }
}
Alias::~Alias() { munmap(p, n); }

// ---------------------------------------------------------------- ticks
CallRec *CUR; u64 LAST_TICKS, LAST_ALLOCS, LAST_FAILED;
static void sched_switch(int target);
static void rearm(CallRec *c) {
  u64 n = std::min(c->budget, c->stop);
  if (!c->switches.empty()) n = std::min(n, c->switches.back() >> 4);
  c->next = n;
}
static __attribute__((noinline, cold)) void slow() {
  CallRec *c = CUR;
  if (c->ticks >= c->budget) { c->in_lib = false; fail("hang", "call still running after %llu steps (tick budget for its size exhausted)", (unsigned long long)c->ticks); }
  if (c->depth > 0) { c->next = c->ticks + 1; return; }
  if (c->ticks >= c->stop && c->can_stop) { c->stop = ~0ull; rearm(c); longjmp(c->jb, 1); }
  if (!c->switches.empty() && c->ticks >= (c->switches.back() >> 4)) {
    int t = (int)(c->switches.back() & 15); c->switches.pop_back();
    bool il = c->in_lib; c->in_lib = false; rearm(c); sched_switch(t); c->in_lib = il;
  }
  rearm(c);
}
static inline void tick() { CallRec *c = CUR; if (c && c->in_lib && ++c->ticks >= c->next) slow(); }
// While SHARED_LOG is set, remember when a call touches static storage of its
// library: the places where another thread could get in its way.
std::vector<u64> *SHARED_LOG;
static __attribute__((noinline, cold)) void note(uintptr_t a) { for (auto &s : statics) if (a >= s.first && a < s.second) { bool il = CUR->in_lib; CUR->in_lib = false; if (SHARED_LOG->size() < 100000) SHARED_LOG->push_back(CUR->ticks + 1); CUR->in_lib = il; return; } }
static inline void touch(void *p) { CallRec *c = CUR; if (!c || !c->in_lib) return; if (__builtin_expect(SHARED_LOG != nullptr, 0)) note((uintptr_t)p); if (++c->ticks >= c->next) slow(); }
extern "C" {
// before every call that leaves a component: GMP, memory functions, allocation
void sim_seam(void *a, void *b) { CallRec *c = CUR; if (!c || !c->in_lib) return; if (__builtin_expect(SHARED_LOG != nullptr, 0)) { u64 n = SHARED_LOG->size(); note((uintptr_t)a); if (SHARED_LOG->size() == n) note((uintptr_t)b); } if (++c->ticks >= c->next) slow(); }
void __sanitizer_cov_trace_pc() { tick(); }
void __tsan_init() {}
#define TS1(n) void n(void *p) { touch(p); }
TS1(__tsan_read1) TS1(__tsan_read2) TS1(__tsan_read4) TS1(__tsan_read8) TS1(__tsan_read16)
TS1(__tsan_write1) TS1(__tsan_write2) TS1(__tsan_write4) TS1(__tsan_write8) TS1(__tsan_write16)
TS1(__tsan_unaligned_read2) TS1(__tsan_unaligned_read4) TS1(__tsan_unaligned_read8) TS1(__tsan_unaligned_read16)
TS1(__tsan_unaligned_write2) TS1(__tsan_unaligned_write4) TS1(__tsan_unaligned_write8) TS1(__tsan_unaligned_write16)
TS1(__tsan_volatile_read1) TS1(__tsan_volatile_read2) TS1(__tsan_volatile_read4) TS1(__tsan_volatile_read8) TS1(__tsan_volatile_read16)
TS1(__tsan_volatile_write1) TS1(__tsan_volatile_write2) TS1(__tsan_volatile_write4) TS1(__tsan_volatile_write8) TS1(__tsan_volatile_write16)
void __tsan_func_entry(void *) { tick(); } void __tsan_func_exit() { tick(); }
void __tsan_read_range(void *p, unsigned long) { touch(p); } void __tsan_write_range(void *p, unsigned long) { touch(p); }
TS1(__tsan_vptr_read) void __tsan_vptr_update(void **, void *) { tick(); }
void __tsan_atomic_thread_fence(int) { tick(); } void __tsan_atomic_signal_fence(int) { tick(); }
#define TA(N, T) \
T __tsan_atomic##N##_load(const volatile T *p, int) { touch((void *)p); return __atomic_load_n(p, 5); } \
void __tsan_atomic##N##_store(volatile T *p, T v, int) { touch((void *)p); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { touch((void *)p); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { touch((void *)p); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { touch((void *)p); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { touch((void *)p); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { touch((void *)p); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { touch((void *)p); return __atomic_fetch_xor(p, v, 5); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { tick(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { tick(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) { tick(); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
TA(8, uint8_t) TA(16, uint16_t) TA(32, uint32_t) TA(64, uint64_t)
// Locks and one-time initialisation: never switch or stop inside, as a real
// implementation would not let another thread in.
int __cxa_guard_acquire(void *); void __cxa_guard_release(void *); void __cxa_guard_abort(void *);
int __wrap___cxa_guard_acquire(void *g) { int r = __cxa_guard_acquire(g); if (r && CUR) CUR->depth++; return r; }
void __wrap___cxa_guard_release(void *g) { __cxa_guard_release(g); if (CUR) CUR->depth--; }
void __wrap___cxa_guard_abort(void *g) { __cxa_guard_abort(g); if (CUR) CUR->depth--; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { int r = pthread_mutex_lock(m); if (CUR) CUR->depth++; return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { int r = pthread_mutex_trylock(m); if (!r && CUR) CUR->depth++; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); if (CUR) CUR->depth--; return r; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { if (CUR) CUR->depth++; int r = pthread_once(o, f); if (CUR) CUR->depth--; return r; }
}

// ---------------------------------------------------------------- allocator
struct Hdr { u64 magic; size_t size; u64 kind; Hdr *prev, *next; u64 pad; };
static_assert(sizeof(Hdr) == 48, "");
static Hdr head = {0, 0, 0, &head, &head, 0};
static HeapStat hs[3];
static const u64 MAGIC = 0x51D0A110C8ull;
static void *sim_alloc(size_t n, int kind) {
  CallRec *c = CUR;
  if (kind == 1) {
    i64 k = c->allocs++;
    if (c->fail_at >= 0 && k >= c->fail_at && k < c->fail_at + c->fail_n) { c->failed++; SH->faults[F_ALLOC]++; return 0; }
  }
  if (n > (1ull << 32)) return 0;
  Hdr *h = (Hdr *)malloc(sizeof(Hdr) + n + 16);
  if (!h) return 0;
  h->magic = MAGIC ^ (u64)h; h->size = n; h->kind = kind; h->prev = h->next = 0;
  if (kind) { h->next = head.next; h->prev = &head; head.next->prev = h; head.next = h; }
  hs[kind].blocks++; hs[kind].bytes += n;
  uint8_t *p = (uint8_t *)(h + 1);
  if (kind) {
    u64 f = c ? c->fill : 0;
    if (f) { if (f % 5 == 1) memset(p, 0, n); else if (f % 5 == 2) memset(p, 0xff, n); else { Rng r(f); for (size_t i = 0; i < n; i += 8) { u64 v = r.next(); memcpy(p + i, &v, std::min<size_t>(8, n - i)); } } }
    else memset(p, 0xBE, n);
    memset(p + n, 0xC5, 16);
  }
  return p;
}
static bool ours(void *p) { Hdr *h = (Hdr *)p - 1; return h->magic == (MAGIC ^ (u64)h); }
static void sim_free(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  if (!ours(p)) { if (h->magic == ~(MAGIC ^ (u64)h)) { SH->calls++; fail("crash", "memory freed twice"); } free(p); return; }
  int kind = (int)h->kind;
  if (kind) { h->prev->next = h->next; h->next->prev = h->prev; memset(p, 0xDD, h->size); }
  hs[kind].blocks--; hs[kind].bytes -= h->size;
  h->magic = ~h->magic;
  free(h);
}
HeapStat heap_lib() { return hs[1]; }
HeapStat heap_gmp() { return hs[2]; }
bool heap_canaries_ok() {
  for (Hdr *h = head.next; h != &head; h = h->next) { uint8_t *e = (uint8_t *)(h + 1) + h->size; for (int i = 0; i < 16; i++) if (e[i] != 0xC5) return false; }
  return true;
}
static int kind_now() { return CUR && CUR->in_lib ? 1 : 0; }
void *operator new(size_t n) { void *p = sim_alloc(n, kind_now()); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = sim_alloc(n, kind_now()); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, kind_now()); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, kind_now()); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_free(p); }
extern "C" {
void *__wrap_malloc(size_t n) { return sim_alloc(n, kind_now()); }
void __wrap_free(void *p) { sim_free(p); }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > (1ull << 32) / b) return 0; void *p = sim_alloc(a * b, kind_now()); if (p) memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!ours(p)) return realloc(p, n);
  void *q = sim_alloc(n, kind_now()); if (!q) return 0;
  memcpy(q, p, std::min(n, ((Hdr *)p - 1)->size)); sim_free(p); return q;
}
}
#ifdef HAVE_GMP
#include <gmp.h>
static void *gm_alloc(size_t n) { return sim_alloc(n, 2); }
static void *gm_realloc(void *p, size_t, size_t n) { void *q = sim_alloc(n, 2); memcpy(q, p, std::min(n, ((Hdr *)p - 1)->size)); sim_free(p); return q; }
static void gm_free(void *p, size_t) { sim_free(p); }
void gmp_seam() { mp_set_memory_functions(gm_alloc, gm_realloc, gm_free); }
#else
void gmp_seam() {}
#endif

// ---------------------------------------------------------------- calls
static __attribute__((noinline)) void poison(size_t depth, u64 kind, const Bytes &echo) {
  volatile uint8_t *b = (volatile uint8_t *)alloca(depth);
  u64 k = kind % 5;
  if (k == 1) for (size_t i = 0; i < depth; i++) b[i] = 0;
  else if (k == 2) for (size_t i = 0; i < depth; i++) b[i] = 0xff;
  else if (k == 3 && !echo.empty()) for (size_t i = 0; i < depth; i++) b[i] = echo[i % echo.size()];
  else { Rng r(kind); for (size_t i = 0; i + 8 <= depth; i += 8) { u64 v = r.next(); for (int j = 0; j < 8; j++) b[i + j] = v >> (8 * j); } }
}
void cpu_limit(int s) {
  rusage ru; rlimit rl; getrusage(RUSAGE_SELF, &ru); getrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + s); setrlimit(RLIMIT_CPU, &rl);
}
static __attribute__((noinline)) void invoke(const std::function<void()> &f) { f(); }
CallStatus libcall(const CallOpt &o, const std::function<void()> &f) {
  CallRec local; CallRec *prev = CUR; CallRec *c = CUR ? CUR : &local;
  u64 base = c->ticks;
  SH->calls++; if (o.work >= 1 << 24) cpu_limit(120 + (int)(o.work >> 23));
  if (o.residue) { poison(o.depth, o.residue, o.echo); SH->faults[F_RESIDUE]++; }
  c->fill = o.residue; c->allocs = 0; c->fail_at = o.fail_alloc; c->fail_n = o.fail_alloc_n; c->failed = 0;
  c->budget = base + 3000000 + 6000 * o.work;
  c->stop = o.stop_at >= 0 ? base + 1 + (u64)o.stop_at : ~0ull; c->can_stop = o.stop_at >= 0;
  rearm(c);
  volatile CallStatus st = C_OK;
  CUR = c;
  if (!c->can_stop || setjmp(c->jb) == 0) {
    c->in_lib = true;
    try { invoke(f); c->in_lib = false; }
    catch (const std::bad_alloc &) { c->in_lib = false; st = C_BADALLOC; }
    catch (...) { c->in_lib = false; st = C_EXC; }
  } else { c->in_lib = false; st = C_STOPPED; c->depth = 0; }
  c->stop = ~0ull; c->can_stop = false; c->budget = ~0ull; c->fill = 0; c->fail_at = -1; rearm(c);
  LAST_TICKS = c->ticks - base; LAST_ALLOCS = c->allocs; LAST_FAILED = c->failed;
  SH->ticks += LAST_TICKS; SH->simtime += 1 + LAST_TICKS / 1000;
  CUR = prev;
  ev(st * 31 + (o.stop_at >= 0 ? 0 : LAST_TICKS));
  return st;
}

// ---------------------------------------------------------------- threads
struct TImpl { pthread_t th; sem_t sem; std::vector<Task> *all; int idx; };
static std::vector<Task> *TASKS; static int TCUR; static sem_t main_sem;
static void baton(int t) { TCUR = t; CUR = &(*TASKS)[t].rec; sem_post(&((TImpl *)(*TASKS)[t].impl)->sem); }
static void semwait(sem_t *s) { while (sem_wait(s)) {} }
static void sched_switch(int t) {
  if (!TASKS) return;
  int n = (int)TASKS->size(), self = TCUR;
  t %= n;
  if (t == self || (*TASKS)[t].done) return;
  SH->faults[F_PREEMPT]++; SH->nontrivial = 1;
  sig(mix(self * 16 + t, (*TASKS)[self].rec.ticks));
  baton(t);
  semwait(&((TImpl *)(*TASKS)[self].impl)->sem);
}
static void *task_main(void *a) {
  TImpl *t = (TImpl *)a; semwait(&t->sem);
  Task &me = (*t->all)[t->idx];
  me.fn(); me.done = true; me.total = me.rec.ticks;
  int n = (int)t->all->size();
  for (int k = 1; k < n; k++) { int j = (t->idx + k) % n; if (!(*t->all)[j].done) { baton(j); return 0; } }
  CUR = nullptr; sem_post(&main_sem); return 0;
}
static pthread_t spawn(void *(*f)(void *), void *a, size_t stack = 64ul << 20) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, stack);
  pthread_t th; if (pthread_create(&th, &at, f, a)) { fprintf(stderr, "pthread_create\n"); _exit(9); }
  return th;
}
void run_tasks(std::vector<Task> &ts, int first) {
  TASKS = &ts; sem_init(&main_sem, 0, 0);
  CallRec *prev = CUR; std::vector<TImpl> im(ts.size());
  for (size_t i = 0; i < ts.size(); i++) {
    sem_init(&im[i].sem, 0, 0); im[i].all = &ts; im[i].idx = (int)i; ts[i].impl = &im[i];
    std::sort(ts[i].preempt.begin(), ts[i].preempt.end());
    for (size_t k = ts[i].preempt.size(); k-- > 0;) ts[i].rec.switches.push_back(ts[i].preempt[k].first << 4 | (ts[i].preempt[k].second & 15));
    im[i].th = spawn(task_main, &im[i]);
  }
  baton(first % (int)ts.size());
  semwait(&main_sem);
  for (auto &t : im) pthread_join(t.th, 0);
  TASKS = nullptr; CUR = prev;
}
static void *ro_main(void *a) { (*(const std::function<void()> *)a)(); return 0; }
void run_on_thread(const std::function<void()> &f, size_t stack) { pthread_t t = spawn(ro_main, (void *)&f, stack); pthread_join(t, 0); }
// a thread whose stack lies somewhere else in the address space
void run_far(const std::function<void()> &f, int where) {
  static void *at[4]; void *&m = at[where & 3]; const size_t n = 1 << 20;
  if (!m) { m = mmap((void *)(0x120000000000ul + 0x3c5a00000000ul * (where & 3) / 3), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { m = nullptr; f(); return; } }
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, m, n); pthread_t t; if (pthread_create(&t, &a, ro_main, (void *)&f)) f(); else pthread_join(t, 0); pthread_attr_destroy(&a);
}

// ---------------------------------------------------------------- output
static int ofd[2] = {-1, -1};
void capture_output() {
  fflush(stdout); fflush(stderr);
  trace_fd = dup(1);
  for (int i = 0; i < 2; i++) { ofd[i] = memfd_create("out", 0); dup2(ofd[i], i + 1); }
}
u64 output_bytes() {
  std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(0);
  u64 n = 0; struct stat s; for (int i = 0; i < 2; i++) if (ofd[i] >= 0 && !fstat(ofd[i], &s)) n += s.st_size;
  return n;
}
void output_discard() {}
