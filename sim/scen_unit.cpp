// Scenarios over single contexts and mixes of all algorithms:
// C06 C07 C08 C09 C10 C11 C15 C19.
#include "scen.h"

static std::string upper(const Bytes &b) { std::string s; for (uint8_t v : b) { s += "0123456789ABCDEF"[v >> 4]; s += "0123456789ABCDEF"[v & 15]; } return s; }
// ================================================================ units
struct CtxUnit : Unit {
  Ctx c; Bytes key, iv; u64 ks; i64 klen; u64 nops = 0; size_t lim = 1 << 20, force_ad = 0;
  CtxUnit(Lib *lib, Node *n, u64 keyseed, i64 kl, u64 res, int gm) : c(lib, n, res, gm), ks(keyseed), klen(kl) { l = lib; rekey(res); }
  Ctx *ctx() override { return &c; }
  void again() { u64 t = LAST_TICKS, a = LAST_ALLOCS, f = LAST_FAILED; c.md5_init(); LAST_TICKS = t; LAST_ALLOCS = a; LAST_FAILED = f; }
  size_t adlen(i64 e) const { if (force_ad) return force_ad; u64 v = pos(e); if (v % 16 == 13 && v / 16 % 40 == 0) return 65536 - 160 + v / 640 % 24 * 16 + (v / 640 % 3 == 2 ? v / 640 % 7 : 0); if (v % 16 == 12) return 0; return v % 16 == 15 ? v / 16 % 4096 : v % 16 == 14 ? 16 * (v / 16 % 20) : v % 70; }
  static Bytes hkey(u64 s, i64 n) { return content(s, modn(n, 200)); }
  void rekey(u64 res) override {
    const Ops *o = l->o;
    switch (o->kind) {
      case K_AEGIS: key = content(ks, 16); c.load_key(key, copt(res)); break;
      case K_HMAC: key = hkey(ks, klen); c.load_key(key, copt(res)); break;
      case K_SHA: case K_HEX: break;
      case K_MD5: c.md5_init(copt(res)); break;
      case K_DES: key = content(ks, 8); c.des_key(key, false, copt(res)); break;
      default: key = stream_key(o, ks, klen); iv = stream_iv(l, key, ks + 1); c.init(key, iv, copt(res));
    }
  }
  Out op(const std::vector<i64> &a, const CallOpt &co) override {
    i64 code = (i64)modn(a[0], 8); size_t n = modn(a[1], lim); u64 seed = pos(a[2]); i64 e1 = a[3], e2 = a[4]; const Ops *o = l->o;
    switch (o->kind) {
      case K_AEGIS: {
        if (code == 0) { key = content(seed, 16); return c.load_key(key, co); }
        Bytes m = content(seed, n), ad = content(seed + 1, adlen(e1)), v = content(seed * 3 + 1, 16);
        if (code >= 5) return c.seal(m, ad, v, co);
        Bytes ct(n), tag(16); ref::aegis128(key.data(), v.data(), ad.data(), ad.size(), m.data(), n, ct.data(), tag.data());
        if (code == 3 || (code == 4 && ct.empty())) tag[modn(e2, 16)] ^= 1 << modn(e2, 8); else if (code == 4) ct[modn(e2, n)] ^= 1 << modn(e2, 8);
        return c.open(ct, tag, ad, v, co);
      }
      case K_HMAC: {
        if (code == 0) { key = hkey(seed, e1); return c.load_key(key, co); }
        if (!n) n = 1; Bytes m = content(seed, n);
        if (code == 4) return c.sha(m, co);
        if (code >= 5) return c.tag(m, 1 + (int)modn(e2, 32), co);
        uint8_t t[32]; ref::hmac_sha256(key.data(), key.size(), m.data(), m.size(), t); Bytes tag = vb(t, 1 + modn(e2, 32));
        if (code == 3) tag[modn(e1, tag.size())] ^= 1 << modn(e1, 8);
        return c.validate(tag, m, e1 & 1, co);
      }
      case K_SHA: return c.sha(content(seed, n), co);
      case K_HEX: {
        if (code >= 5) return c.hexenc(content(seed, n), co);
        Bytes m = content(seed, n); if (code < 2) return c.hexdec(m, co);       // not text at all
        std::string s = upper(m); Bytes x(s.begin(), s.end()); if (code == 2 && !x.empty()) x.resize(x.size() - 1 - modn(e1, std::min<size_t>(x.size(), 5)));
        return c.hexdec(x, co);
      }
      case K_MD5: {
        if (code == 0) return c.md5_init(co);
        if (code == 5) { Out r = c.md5_final(co); again(); return r; }
        if (code == 6) { Out r = c.md5_packet(content(seed, n), co); again(); return r; }
        return c.md5_update(content(seed, n), co);
      }
      case K_DES: {
        if (code == 0 || code == 1) return c.des_key(content(seed, 8), code == 1, co);
        Bytes m = content(seed, n < 8192 ? 8 * (n % 40) : n / 8 * 8);
        if (code <= 4) return c.des_ecb(m, co);
        if (code <= 6) return c.des_ctr(m, content(seed + 1, 12), co);
        return c.des_block(content(seed, 8), co);
      }
      default: {
        if (code == 0 || (code == 1 && !o->load_iv)) { key = stream_key(o, seed, e1); iv = stream_iv(l, key, (i64)seed + 1); return c.init(key, iv, co); }
        if (code == 1) return c.load_iv(stream_iv(l, key, (i64)seed + 1), co);
        if (code == 7 && o->chacha_block) return c.cblock(seed, co);
        return c.process(content(seed, n), o->kind == K_CFB ? (int)(e1 & 1) : 0, co);
      }
    }
  }
};
std::unique_ptr<Unit> make_unit(Lib *l, Node *n, u64 ks, i64 kl, u64 res, int gm) {
  if (l->o->kind == K_JL || l->o->kind == K_LHE) return make_gmp_unit(l, n, ks, res);
  return std::unique_ptr<Unit>(new CtxUnit(l, n, ks, kl, res, gm));
}
void gen_op(Rng &r, std::vector<i64> &a, int maxsize) {
  a.push_back(r.pct(35) ? r.below(2) : r.below(8)); a.push_back(gsize(r, maxsize)); a.push_back(r.pct(30) ? r.below(6) : r.below(1 << 20)); a.push_back(r.below(1 << 16)); a.push_back(r.below(1 << 16));
  if (r.pct(4)) { size_t k = a.size(); a[k - 4] = 0; a[k - 2] = a[k - 2] / 16 * 16 + 12; }      // nothing to protect at all
}
// one call of a process that makes very many of them
static std::vector<i64> soak_op(Rng &r, const Step &t) {
  bool one = t.arg(2) & 1; Rng f(pos(t.arg(1)) + 1); std::vector<i64> a; a.push_back(one ? f.range(t.arg(2) & 2 ? 5 : 2, 7) : r.below(8)); a.push_back(one ? f.range(1, 70) : r.below(70)); a.push_back(r.below(1 << 20)); a.push_back(r.below(1 << 16) | 1); a.push_back(r.below(1 << 16)); return a;
}
static u64 soak_len(const Lib *l, const Step &t, u64 most) { bool slow = l->o->kind == K_JL || l->o->kind == K_LHE; return std::min<u64>(modn(t.arg(0), 80000), slow ? 150 : most); }
std::vector<std::string> unit_libs(bool gmp) {
  std::vector<std::string> v;
  for (auto k : {"cfb", "ctr", "aegis", "chacha", "hc128", "rabbit", "sosemanuk", "serpent", "hmac", "sha", "md5", "des", "hex"}) for (auto &x : variants(k)) v.push_back(x);
  if (gmp) for (auto k : {"jl", "lhe", "mulhe"}) if (has_lib(k)) v.push_back(k);
  return v;
}
static Lib *ulib(i64 v, bool gmp) { auto a = unit_libs(gmp); return lib(a[modn(v, a.size())]); }
// choose the algorithm first and the build second, so that variants do not crowd out the rest
static i64 pick_unit(Rng &r, bool gmp) {
  auto a = unit_libs(gmp); std::vector<std::string> kinds; for (auto &x : a) { std::string k = x.substr(0, x.find('.')); if (std::find(kinds.begin(), kinds.end(), k) == kinds.end()) kinds.push_back(k); }
  std::string k = kinds[r.below(kinds.size())]; std::vector<i64> c; for (size_t i = 0; i < a.size(); i++) if (a[i].substr(0, a[i].find('.')) == k) c.push_back(i);
  return c[r.below(c.size())];
}
static std::vector<i64> tail(const Step &t, size_t from) { std::vector<i64> v; for (size_t i = 0; i < 5; i++) v.push_back(t.arg(from + i)); return v; }
static std::string show(const Out &o) { return (o.st == C_OK ? "returned " + std::to_string(o.ret) + ", output " + hex(o.b) + " (" + std::to_string(o.b.size()) + " bytes)" : o.st == C_STOPPED ? "abandoned" : "exception"); }

// ================================================================ C06: threads
// cfg: tasks; steps: "task" lib key klen res | "op" task residue code n seed e1 e2 | "pre" task permille target kind
static Plan gen_c06(Rng &r, int tier) {
  Plan p; int nt = (int)r.range(2, r.pct(70) ? 3 : 5); bool same = r.pct(60); i64 first = pick_unit(r, true); i64 key = r.below(1 << 20);
  p.cfg["first"] = r.below(nt);
  for (int t = 0; t < nt; t++) p.add("task", {same ? first : pick_unit(r, true), r.pct(30) ? key : (i64)r.below(1 << 20), (i64)r.below(64), (i64)r.below(1000)});
  for (int t = 0; t < nt; t++) { int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) { std::vector<i64> a = {t, (i64)r.below(100)}; gen_op(r, a, r.pct(70) ? 70 : 400); p.add("op", a); } }
  int np = (int)r.range(1, tier ? 24 : 14);
  for (int i = 0; i < np; i++) p.add("pre", {(i64)r.below(nt), (i64)r.below(1000000), (i64)r.below(nt), (i64)r.below(3), (i64)r.below(1 << 20)});
  enlarge(r, p, "op", 3, 4, 17); return p;
}
extern std::vector<u64> *SHARED_LOG;      // ticks at which a call touched its library's static storage
static void exec_c06(const Plan &p) {
  struct T { Lib *l; i64 key, klen, res; std::vector<const Step *> ops; std::vector<Out> solo, got; std::vector<u64> touch; u64 ticks = 0; };
  std::vector<T> ts;
  for (auto &s : p.steps) if (s.op == "task" && ts.size() < 8) { T t; t.l = ulib(s.arg(0), true); t.key = pos(s.arg(1)); t.klen = s.arg(2); t.res = pos(s.arg(3)); ts.push_back(t); }
  if (ts.empty()) return;
  for (auto &s : p.steps) if (s.op == "op") ts[modn(s.arg(0), ts.size())].ops.push_back(&s);
  Node proc; proc.shared = true;
  auto body = [&](T &t, std::vector<Out> &out) {
    auto u = make_unit(t.l, &proc, t.key, t.klen, t.res, 0);
    for (auto s : t.ops) out.push_back(u->op(tail(*s, 2), copt(s->arg(1))));
  };
  auto fresh = [&] { for (auto &t : ts) images_reset(t.l); };
  std::set<std::string> names;
  for (auto &t : ts) {               // alone, each in a process of its own
    fresh(); std::vector<Task> one(1); SHARED_LOG = &t.touch; one[0].fn = [&] { body(t, t.solo); }; run_tasks(one, 0); SHARED_LOG = nullptr; t.ticks = one[0].total;
    names.insert(t.l->name);
  }
  fresh();
  std::vector<Task> tk(ts.size());
  for (size_t i = 0; i < ts.size(); i++) { T *t = &ts[i]; tk[i].fn = [t, &body] { body(*t, t->got); }; sig(fnv(t->l->name.data(), t->l->name.size())); tr("task %zu: %s, %zu calls, %llu steps alone, %zu touching static storage", i, t->l->name.c_str(), t->ops.size(), (unsigned long long)t->ticks, t->touch.size()); }
  for (auto &s : p.steps) if (s.op == "pre") {
    size_t i = modn(s.arg(0), ts.size()); T &t = ts[i]; u64 at = (u64)((__uint128_t)t.ticks * modn(s.arg(1), 1000000) / 1000000) + 1;
    if (modn(s.arg(3), 3) && !t.touch.empty()) at = t.touch[modn(s.arg(4), t.touch.size())];   // right before such an access
    tk[i].preempt.push_back({at, (int)modn(s.arg(2), ts.size())});
  }
  at_step(p.steps.size(), Step{"interleave", {}});
  run_tasks(tk, (int)modn(p.get("first"), ts.size()));
  for (size_t i = 0; i < ts.size(); i++) for (size_t k = 0; k < ts[i].ops.size(); k++) {
    checked(); if (!(ts[i].got[k] == ts[i].solo[k])) fail("interference", "thread %zu (%s), call %zu: alone it %s; with the other threads it %s", i, ts[i].l->name.c_str(), k, show(ts[i].solo[k]).c_str(), show(ts[i].got[k]).c_str());
  }
  SH->nontrivial = SH->nontrivial || ts.size() > 1;
}

// ================================================================ C07: checkpoints
// "op" res code n seed e1 e2 | "ckpt" slot | "restore" slot how residue | "crash" tick + op
static Plan gen_c07(Rng &r, int tier) {
  Plan p; p.cfg["lib"] = pick_unit(r, false); p.cfg["key"] = r.below(1 << 20); p.cfg["klen"] = r.below(64); p.cfg["res"] = r.below(1000); p.cfg["shared"] = r.pct(30);
  int n = (int)r.range(4, tier ? 24 : 14); int mx = r.pct(70) ? 100 : 700;
  for (int i = 0; i < n; i++) {
    if (i && r.pct(25)) { p.add("ckpt", {(i64)r.below(3)}); continue; }
    if (i && r.pct(25)) { p.add("restore", {(i64)r.below(3), (i64)r.below(6), (i64)r.below(1000)}); continue; }
    if (i && r.pct(12)) { std::vector<i64> a = {gen_tick(r) * 4}; gen_op(r, a, mx); p.add("crash", a); p.add("restore", {(i64)r.below(3), (i64)r.below(6), (i64)r.below(1000)}); continue; }
    std::vector<i64> a = {(i64)r.below(100)}; gen_op(r, a, mx); p.add("op", a);
  }
  enlarge(r, p, "op", 2, 5, 17); soak(r, p); return p;
}
static void exec_c07(const Plan &p) {
  Lib *l = ulib(p.get("lib"), false); Node N, M; N.shared = M.shared = p.get("shared"); M.shared = false;
  auto mk = [&](Node *n) { return std::unique_ptr<CtxUnit>(new CtxUnit(l, n, p.get("key"), p.get("klen"), pos(p.get("res")), 0)); };
  auto u = mk(&N); sig(fnv(l->name.data(), l->name.size()));
  struct Ck { Bytes mem, key, iv; std::vector<std::vector<i64>> hist; bool set = false; }; Ck ck[3];
  std::vector<std::vector<i64>> hist; bool dirty = false;
  auto snap = [&](Ck &k) { k.mem = u->c.mem.bytes(); k.key = u->key; k.iv = u->iv; k.hist = hist; k.set = true; };
  snap(ck[0]);
  auto expected = [&](const std::vector<i64> &a) {       // the same history from the start, uninterrupted, elsewhere
    if (!N.shared) { M.restart(); } Node solo; solo.shared = N.shared; Node *n = N.shared ? &solo : &M; auto v = mk(n); for (auto &h : hist) v->op(h, copt(1)); return v->op(a, copt(1));
  };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t);
    if (t.op == "op") {
      if (dirty) continue;
      auto a = tail(t, 1); Out e = expected(a); Out o;
      if (modn(t.arg(0), 4) == 3) run_on_thread([&] { CUR = nullptr; o = u->op(a, copt(t.arg(0))); }); else o = u->op(a, copt(t.arg(0)));
      checked(); if (!(o == e)) fail("diverged", "%s: call %zu after %zu earlier calls %s; a context never checkpointed %s", l->name.c_str(), i, hist.size(), show(o).c_str(), show(e).c_str());
      hist.push_back(a); sig(modn(a[0], 8));
    } else if (t.op == "soak") {      // a context that has been in use for long
      if (dirty) continue; cpu_limit(300); Rng r(pos(t.arg(1)) + 7); u64 n = soak_len(l, t, 3000); fault(F_STALL);
      for (u64 q = 0; q < n; q++) { auto a = soak_op(r, t); Out o = u->op(a, copt((i64)(q % 3))); if (o.st != C_OK) fail("crash", "exception"); hist.push_back(a); simtime(50); }
    } else if (t.op == "ckpt") { if (!dirty) { snap(ck[modn(t.arg(0), 3)]); sig(100); } }
    else if (t.op == "crash") { fault(F_CRASH); Out o = u->op(tail(t, 1), copt(5, (i64)pos(t.arg(0)))); dirty = true; sig(200 + o.st); }
    else if (t.op == "restore") {
      Ck &k = ck[modn(t.arg(0), 3)].set ? ck[modn(t.arg(0), 3)] : ck[0]; fault(F_CHECKPOINT);
      i64 how = (i64)modn(t.arg(1), 6); Ctx &c = u->c; sig(300 + how);
      if (how >= 3) { fault(F_RESTART); N.restart(); }
      if (how == 1 || how == 4) { fault(F_MIGRATE); Buf nb(c.o->ctx_size, 0, pos(t.arg(2)), c.o->ctx_align); memset(c.mem.p, 0xDD, c.mem.n); Buf old = std::move(c.mem); c.mem = std::move(nb); }   // another address; the old memory is dead
      else if (how == 2 || how == 5) { c.fresh(pos(t.arg(2))); c.nd->enter(l); Bytes k2 = content(99, 64); }
      if (how == 5) { u->op({0, 20, 77, 3, 3}, copt(3)); u->op({6, 40, 78, 3, 3}, copt(3)); }         // in place of some other state
      memcpy(c.mem.p, k.mem.data(), k.mem.size()); u->key = k.key; u->iv = k.iv; hist = k.hist; dirty = false;
    }
  }
  // every checkpoint must still be as good as new
  for (auto &k : ck) if (k.set) {
    memcpy(u->c.mem.p, k.mem.data(), k.mem.size()); u->key = k.key; u->iv = k.iv; hist = k.hist;
    for (i64 code : {3, 6}) { std::vector<i64> a = {code, 37, 1234, 2, 7}; Out e = expected(a), o = u->op(a, copt(2)); checked(); if (!(o == e)) fail("diverged", "%s: resumed from a checkpoint, a call %s; a context never checkpointed %s", l->name.c_str(), show(o).c_str(), show(e).c_str()); hist.push_back(a); }
  }
}

// ================================================================ C08: allocation failures
// "op" residue fail_n fail_cnt code n seed e1 e2
static Plan gen_c08(Rng &r, int tier) {
  Plan p; p.cfg["lib"] = pick_unit(r, false); p.cfg["key"] = r.below(1 << 20); p.cfg["klen"] = r.below(64); p.cfg["res"] = r.below(1000); p.cfg["gm"] = r.range(0, 2);
  int n = (int)r.range(2, tier ? 20 : 10);
  for (int i = 0; i < n; i++) { std::vector<i64> a = {(i64)r.below(100), r.pct(70) ? (i64)r.below(1 << 16) : -1, r.pct(70) ? 1 : 1000}; gen_op(r, a, 700); p.add("op", a); }
  enlarge(r, p, "op", 4, 5, 17); soak(r, p); return p;
}
static void exec_c08(const Plan &p) {
  Lib *l = ulib(p.get("lib"), false); Node N, T; auto mk = [&](Node *n, int gm) { return std::unique_ptr<CtxUnit>(new CtxUnit(l, n, p.get("key"), p.get("klen"), pos(p.get("res")), gm)); };
  auto u = mk(&N, (int)modn(p.get("gm"), 3)), twin = mk(&T, 0); sig(fnv(l->name.data(), l->name.size()));
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); auto a = tail(t, 3);
    if (t.op == "soak") { cpu_limit(300); Rng r(pos(t.arg(1)) + 7); u64 n = soak_len(l, t, 80000); fault(F_STALL); for (u64 q = 0; q < n; q++) { auto b = soak_op(r, t); Out x = u->op(b, copt((i64)(q % 3))), y = twin->op(b, copt(1)); if (!(x == y)) fail("wrong-result", "%s: call %llu of many %s; a twin with memory throughout %s", l->name.c_str(), (unsigned long long)q, show(x).c_str(), show(y).c_str()); } checked(n); continue; }
    // the twin shows what the call does with memory available
    Out e = twin->op(a, copt(t.arg(0))); i64 allocs = (i64)LAST_ALLOCS;
    CallOpt c = copt(t.arg(0)); bool arm = t.arg(1) >= 0 && allocs > 0;
    if (arm) { c.fail_alloc = (i64)modn(t.arg(1), allocs); c.fail_alloc_n = std::max<i64>(1, (i64)modn(t.arg(2), 1 << 20)); }
    HeapStat h0 = heap_lib(); Bytes key = u->key, iv = u->iv; Out o = u->op(a, c); u64 failed = LAST_FAILED; HeapStat h1 = heap_lib();
    if (!heap_canaries_ok()) fail("overstep", "%s wrote past a heap block", l->name.c_str());
    sig(mix(arm ? c.fail_alloc + 1 : 0, o.st)); if (failed) SH->nontrivial = 1;
    checked();
    if (o.st == C_OK) {
      if (!(o == e)) fail("wrong-result", "%s: with allocation %lld failing the call completes and %s; with memory it %s", l->name.c_str(), (long long)c.fail_alloc, show(o).c_str(), show(e).c_str());
    } else {
      if (!failed) fail("crash", "%s: a call raised an exception though no allocation failed", l->name.c_str());
      if (h1.blocks > h0.blocks) fail("leak", "%s: the call gave up when allocation %lld failed, still holding %lld block(s), %lld bytes", l->name.c_str(), (long long)c.fail_alloc, (long long)(h1.blocks - h0.blocks), (long long)(h1.bytes - h0.bytes));
      // memory is back: re-initialise and do it again
      fault(F_RETRY); if (N.shared) {} auto v = mk(&T, 0);
      u->ks = twin->ks; u->rekey(t.arg(0)); u->key = v->key; Out o2 = u->op(a, copt(t.arg(0) + 1)), e2 = v->op(a, copt(1));
      if (!(o2 == e2)) fail("no-recovery", "%s: after a failed allocation and re-initialisation the call %s; a fresh context %s", l->name.c_str(), show(o2).c_str(), show(e2).c_str());
      checked(); twin = std::move(v);
    }
  }
  SH->nontrivial = SH->nontrivial || SH->faults[F_ALLOC];
}

// ================================================================ C09: malformed packets
static Plan gen_c09(Rng &r, int tier) {
  Plan p; p.cfg["lib"] = pick_unit(r, true); p.cfg["key"] = r.below(1 << 20); p.cfg["klen"] = r.below(200); p.cfg["res"] = r.below(1000); p.cfg["gm"] = r.range(1, 2);
  int n = (int)r.range(2, tier ? 24 : 12); bool big = r.pct(5);
  for (int i = 0; i < n; i++) { std::vector<i64> a = {(i64)r.below(100)}; gen_op(r, a, 4000); if (big && r.pct(30)) a[2] = r.range(9000, 100000); if (r.pct(20)) a[2] = r.below(70); p.add("op", a); }
  enlarge(r, p, "op", 2, 8, 19); soak(r, p);
  if (rare(20001) >= 0) p.add("wide", {(i64)r.below(1 << 16)});
  if (i64 k = rare(101); k >= 0) p.cfg["lib"] = k, p.add("scale", {(i64)r.below(100), (i64)r.below(8), (i64)r.below(8192), (i64)r.below(1 << 20), (i64)r.below(1 << 16), (i64)r.below(1 << 16)});
  if (i64 k = rare(901); k >= 0) { p.cfg["lib"] = k; if (r.pct(50)) { auto v = unit_libs(true); p.cfg["lib"] = r.below(v.size()); for (size_t i = 0; i < v.size(); i++) if (v[i] == (r.pct(50) ? "hc128" : "sha") || (v[i] == "hmac.own" && r.pct(30))) p.cfg["lib"] = i; } p.add("big", {(i64)r.below(100), 7, (9 << 20) + (i64)r.below(4 << 20), (i64)r.below(1 << 20), 5, 5}); }
  return p;
}
static void wide_ad(Lib *f, u64 v) {      // associated data whose 16-byte blocks have byte offsets beyond 2^33: kept in one block of real memory
  size_t n = ((size_t)1 << 33) + 16 + 16 * (v % 500); Alias ad(n, v); Buf k(content(v, 16)), iv(content(v + 1, 16)), cs(f->o->ctx_size, 0, 7, f->o->ctx_align), m(content(v, v % 40)), ct(v % 40), t(16); CallOpt co; co.work = n;
  libcall(co, [&] { f->o->load_key(cs.p, k.p, 16); f->o->seal(cs.p, ct.p, t.p, m.p, ad.p, iv.p, n, v % 40); });
  checked(); if (!ct.canaries_ok() || !t.canaries_ok() || !cs.canaries_ok()) fail("overstep", "sealing with %zu bytes of associated data wrote outside its buffers", n); SH->nontrivial = 1; fault(F_STALL);
}
static void exec_c09(const Plan &p) {
  Lib *l = ulib(p.get("lib"), true); Node N; auto u = make_unit(l, &N, p.get("key"), p.get("klen"), pos(p.get("res")), 1 + (int)modn(p.get("gm") - 1, 2)); sig(fnv(l->name.data(), l->name.size()));
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); auto a = tail(t, 1); if (l->o->kind == K_JL || l->o->kind == K_LHE) a[0] += 8;    // their malformed operations
    Out o;
    if (t.op == "soak") { cpu_limit(300); Rng r(pos(t.arg(1)) + 7); u64 n = soak_len(l, t, 20000); fault(F_STALL); bool gmpk = l->o->kind == K_JL || l->o->kind == K_LHE; for (u64 q = 0; q < n; q++) { auto b = soak_op(r, t); if (gmpk) b[0] += 8; if (u->op(b, copt((i64)(q % 3))).st != C_OK) fail("crash", "%s: a call raised an exception", l->name.c_str()); } checked(n); continue; }
    if (t.op == "wide") { if (has_lib("aegis.o0.fast")) wide_ad(lib("aegis.o0.fast"), pos(t.arg(0))); continue; }
    if (t.op == "scale") {     // work grows in proportion to the sizes: 16 times the bytes may not take much more than 16 times the steps
      auto *c = dynamic_cast<CtxUnit *>(u.get()); if (!c) continue; fault(F_STALL); u64 s[2]; bool whole = t.arg(3) & 1;
      for (int ad = c->l->o->kind == K_AEGIS; ad >= 0; ad--) {
      for (int q = 0; q < 2; q++) { size_t n = (size_t)(8192 + modn(t.arg(2), 8192)) << (4 * q); n = whole ? n / 64 * 64 : n + modn(t.arg(4), 64); c->force_ad = ad ? n : 0; auto b = a; b[1] = ad ? modn(t.arg(2), 64) : n; u->rekey(3); if (u->op(b, copt(0)).st != C_OK) fail("crash", "%s: a call raised an exception", l->name.c_str()); s[q] = LAST_TICKS; }
      c->force_ad = 0; checked(); tr("   %llu steps, %llu for 16 times the bytes", (unsigned long long)s[0], (unsigned long long)s[1]);
      if (s[1] > 40 * s[0] + 2000000) fail("superlinear", "%s: a call took %llu steps, and %llu for 16 times as many bytes", l->name.c_str(), (unsigned long long)s[0], (unsigned long long)s[1]);
      }
      continue;
    }
    if (t.op == "big") { auto *c = dynamic_cast<CtxUnit *>(u.get()); if (!c) continue; c->lim = 1 << 25; run_on_thread([&] { CUR = nullptr; o = u->op(a, copt(0)); }, 8 << 20); c->lim = 1 << 20; }     // more bytes than a thread has stack by default
    else o = u->op(a, copt(t.arg(0)));
    if (o.st != C_OK) fail("crash", "%s: a call raised an exception", l->name.c_str()); sig(mix(modn(a[0], 8), modn(a[1], 128)));
    SH->simtime += 100; checked(); fault(F_CORRUPT);
  }
}

// ================================================================ C10: MD5 streams
// "upd" ctx n seed | "fin" ctx | "copy" from to | "packet" ctx n seed | "init" ctx | "abandon" ctx tick n
static Plan gen_c10(Rng &r, int tier) {
  Plan p; p.cfg["res"] = r.below(1000); p.cfg["shared"] = r.pct(50); int n = (int)r.range(4, tier ? 80 : 40); int style = (int)r.below(4);
  auto sz = [&]() -> i64 { return style == 0 ? r.range(0, 9) : style == 1 ? r.range(50, 70) : style == 2 ? r.range(0, 130) : gsize(r, 1200); };
  for (int i = 0; i < n; i++) {
    i64 c = r.below(4);
    switch (r.below(12)) {
      case 0: case 1: p.add("fin", {c, (i64)r.below(100)}); break;
      case 2: p.add("copy", {c, (i64)r.below(4)}); break;
      case 3: p.add("packet", {c, sz(), (i64)r.below(1 << 20)}); break;
      case 4: if (r.pct(50)) p.add("init", {c}); else p.add("abandon", {c, gen_tick(r), sz()}); break;
      default: p.add("upd", {c, sz(), (i64)r.below(1 << 20), (i64)r.below(100)});
    }
  }
  if (i64 k = rare(6001); k >= 0) p.add("huge", {(i64)r.below(4), (i64)(r.below(1 << 14) * 4) + k % 4});
  enlarge(r, p, "upd", 1, 6, 17); enlarge(r, p, "packet", 1, 4, 17); soak(r, p);
  return p;
}
static void upd4(Lib *f, Node *N, u64 v) {      // one update as long as its length field allows
  Ctx x(f, N, 3); x.md5_init(); ref::Md5 y; size_t a = v / 4 % 80, n = (size_t)0xffffffffu - v / 320 % 80; Bytes m = content(v, a); Alias in(n, v); Buf b(m), d(16); CallOpt co; co.work = n;
  x.md5_update(m); y.update(m.data(), a);
  libcall(co, [&] { f->o->md5_update(x.mem.p, in.p, (uint32_t)n); }); y.update(in.p, n); Out o = x.md5_final(); Bytes e(16); y.final(e.data()); checked();
  if (o.b != e) fail("wrong-digest", "an update of %zu bytes after %zu others: digest %s, RFC 1321 gives %s", n, a, hex(o.b).c_str(), hex(e).c_str());
  SH->nontrivial = 1; fault(F_STALL);
}
static void exec_c10(const Plan &p) {
  Lib *l = lib("md5"); Node N; N.shared = p.get("shared"); std::vector<std::unique_ptr<Ctx>> c; std::vector<Bytes> msg(4); std::vector<bool> live(4, true);
  for (int i = 0; i < 4; i++) { c.emplace_back(new Ctx(l, &N, pos(p.get("res")) + i)); c[i]->md5_init(); }
  auto dg = [](const Bytes &m) { Bytes d(16); ref::md5(m.data(), m.size(), d.data()); return d; };
  std::vector<std::string> cuts(4);
  auto fin = [&](size_t k, i64 res) {
    Out o = c[k]->md5_final(copt(res)); checked(); sig(msg[k].size());
    if (o.st != C_OK || o.b != dg(msg[k])) fail("wrong-digest", "a %zu-byte message that arrived as %s has digest %s, RFC 1321 gives %s", msg[k].size(), cuts[k].c_str(), hex(o.b).c_str(), hex(dg(msg[k])).c_str());
    c[k]->md5_init(copt(res)); msg[k].clear(); cuts[k].clear();
  };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); size_t k = modn(t.arg(0), 4);
    if (t.op == "upd") { Bytes m = content(t.arg(2), modn(t.arg(1), 1 << 18)); if (msg[k].size() > (1 << 20)) continue; Out o = c[k]->md5_update(m, copt(t.arg(3))); if (o.st != C_OK) fail("crash", "exception"); msg[k] = cat(msg[k], m); cuts[k] += (cuts[k].empty() ? "" : "+") + std::to_string(m.size()); sig(m.size() & 127); }
    else if (t.op == "soak") { cpu_limit(300);        // a message in very many pieces, or very many messages
      u64 n = modn(t.arg(0), 80000); k = modn(t.arg(1), 4); bool one = t.arg(2) & 1; fault(F_STALL); Bytes all;
      for (u64 q = 0; q < n; q++) {
        Bytes m = content(t.arg(1) + (i64)(q % 3000) * 16 + 5, (q * 7 + pos(t.arg(1))) % (t.arg(2) & 2 ? 9 : 70)); Out o = c[k]->md5_update(m, copt((i64)(q % 3))); if (o.st != C_OK) fail("crash", "exception"); msg[k].insert(msg[k].end(), m.begin(), m.end()); simtime(50);
        if (!one) { cuts[k] += "+many"; fin(k, (i64)(q % 3)); }
      }
      cuts[k] += "+many pieces"; fin(k, 5);
    }
    else if (t.op == "fin") fin(k, t.arg(1));
    else if (t.op == "copy") { size_t to = modn(t.arg(1), 4); if (to != k) { fault(F_CHECKPOINT); memcpy(c[to]->mem.p, c[k]->mem.p, c[k]->mem.n); msg[to] = msg[k]; cuts[to] = cuts[k]; } }
    else if (t.op == "packet") { Bytes m = content(t.arg(2), modn(t.arg(1), 1 << 18)); Out o = c[k]->md5_packet(m); checked(); if (o.st != C_OK || o.b != dg(m)) fail("wrong-digest", "a packet of %zu bytes on a context in use has digest %s, RFC 1321 gives %s", m.size(), hex(o.b).c_str(), hex(dg(m)).c_str()); c[k]->md5_init(); msg[k].clear(); cuts[k].clear(); fault(F_ABANDON); }
    else if (t.op == "init") { c[k]->md5_init(); msg[k].clear(); cuts[k].clear(); fault(F_ABANDON); }
    else if (t.op == "abandon") { fault(F_ABANDON); c[k]->md5_update(content(5, modn(t.arg(2), 4096)), copt(3, (i64)pos(t.arg(1)))); c[k]->md5_init(); msg[k].clear(); cuts[k].clear(); }
    else if (t.op == "huge" && has_lib("md5.fast")) {     // past 2^29 bytes the bit count needs its second word
      Lib *f = lib("md5.fast"); Ctx x(f, &N, 3); x.md5_init(); ref::Md5 y; Rng r(pos(t.arg(1)) + 1);
      if (modn(t.arg(1), 4) == 3) { upd4(f, &N, pos(t.arg(1))); continue; }
      auto upd = [&](Ctx &c, ref::Md5 &w, const uint8_t *d, size_t n) { CallOpt co; co.work = n; libcall(co, [&] { f->o->md5_update(c.mem.p, (uint8_t *)d, (uint32_t)n); }); w.update(d, n); };
      auto end = [&](Ctx &c, ref::Md5 w) { Out o = c.md5_final(); Bytes e(16); w.final(e.data()); checked(); if (o.b != e) fail("wrong-digest", "a message of %llu bytes has digest %s, RFC 1321 gives %s", (unsigned long long)w.total, hex(o.b).c_str(), hex(e).c_str()); };
      if (t.arg(1) & 1) { size_t n = ((size_t)1 << 29) + modn(t.arg(1), 5000); Bytes m = content(t.arg(1) | 3, n); upd(x, y, m.data(), n); }   // in one update
      else { size_t ch = 1 << 26; Bytes m = content(11, ch); for (int q = 0; q < 9; q++) upd(x, y, m.data(), q == 8 ? 1000 : q == 3 ? ch - 5 : ch); }
      Bytes more = content(12, 200);      // and from there to every kind of ending
      for (size_t at : {0, 1, 54, 55, 56, 57, 63, 64, 65, 119, (int)r.below(64)}) { Ctx c(f, &N, 5); memcpy(c.mem.p, x.mem.p, x.mem.n); ref::Md5 w = y; size_t n = (at + 128 - y.total % 64) % 64 + (at & 64); size_t k = r.below(n + 1); upd(c, w, more.data(), k); upd(c, w, more.data() + k, n - k); end(c, w); }
      end(x, y);
      SH->nontrivial = 1;
    }
  }
  for (size_t k = 0; k < 4; k++) fin(k, 5);
  SH->nontrivial = 1;
}

// ================================================================ C11: a journal on a faulty disk
// "put" n seed fault a b residue | "crash" tick n | "recover" residue
struct Disk { std::vector<Bytes> slot; };
static Plan gen_c11(Rng &r, int tier) {
  Plan p; p.cfg["res"] = r.below(1000); p.cfg["var"] = r.below(3); p.cfg["shared"] = r.pct(50); int faultpct = (int)r.range(0, 3) * 15; int n = (int)r.range(3, tier ? 50 : 24); int style = (int)r.below(4); p.cfg["cap"] = r.pct(15) ? r.range(3, 9) : 1000;
  for (int i = 0; i < n; i++) {
    if (r.pct(8)) { p.add("recover", {(i64)r.below(100)}); continue; }
    if (faultpct && r.pct(6)) { p.add("crash", {gen_tick(r), gsize(r, 500)}); continue; }
    i64 sz = style == 0 ? r.range(0, 130) : style == 1 ? 64 * r.range(0, 5) + r.range(-9, 0) : gsize(r, 1500); if (sz < 0) sz = 0;
    p.add("put", {sz, (i64)r.below(1 << 20), r.pct(faultpct) ? r.range(1, 10) : 0, (i64)r.below(1 << 16), (i64)r.below(1 << 16), (i64)r.below(100)});
  }
  enlarge(r, p, "put", 0, 8, 22);
  if (i64 k = rare(9001); k >= 0) p.add("huge", {hugearg(r, k)});
  if (i64 k = rare(25001); k >= 0) p.add("huge2", {hugearg(r, k)});
  soak(r, p); return p;
}
static void exec_c11(const Plan &p) {
  std::vector<std::string> vs = {"sha"}; for (auto &v : variants("hmac")) vs.push_back(v);
  Lib *l = lib(vs[modn(p.get("var"), vs.size())]); Node N; N.shared = p.get("shared"); Ctx c(l, &N, pos(p.get("res"))); sig(fnv(l->name.data(), l->name.size()));
  // a record on disk: digest || sequence number || payload, in slots
  std::vector<Bytes> disk, good; size_t cap = 1 + modn(p.get("cap") - 1, 1000); u64 seq = 0; std::vector<Bytes> hist;
  auto digest = [&](const Bytes &m, i64 res) {
    CallOpt o = copt(res); if (res % 4 == 3 && !m.empty()) { o.residue = 3; o.echo = m; } Out d = c.sha(m, o); if (d.st != C_OK) fail("crash", "exception");
    uint8_t e[32]; ref::sha256(m.data(), m.size(), e); checked();
    if (memcmp(e, d.b.data(), 32)) fail("wrong-digest", "%s: %zu bytes have digest %s, SHA-256 is %s", l->name.c_str(), m.size(), hex(d.b).c_str(), hex(e, 32).c_str());
    return d.b;
  };
  auto recover = [&](i64 res) {
    for (size_t k = 0; k < disk.size(); k++) {
      Bytes r = disk[k]; bool intact = r == good[k]; if (r.size() < 32) { checked(); continue; }
      bool ok = digest(sub(r, 32, r.size()), res + (i64)k) == sub(r, 0, 32);
      checked(); sig(mix(intact, ok));
      if (intact && !ok) fail("record-lost", "%s: intact record %zu of %zu bytes is rejected on recovery", l->name.c_str(), k, r.size());
      // a record that is not what was last written here must not verify, unless it is an intact record from elsewhere (caught by its number)
      bool foreign = false; if (!intact) for (auto &h : hist) if (h == r) foreign = true;
      if (!intact && ok && !foreign) fail("bad-record-accepted", "%s: damaged record %zu of %zu bytes verifies on recovery", l->name.c_str(), k, r.size());
      if (!intact && ok && foreign && r.size() >= 40 && good[k].size() >= 40) { u64 s; memcpy(&s, &r[32], 8); u64 w; memcpy(&w, &good[k][32], 8); if (s == w) fail("bad-record-accepted", "stale record accepted"); }
    }
  };
  auto le = [](u64 v) { Bytes b(8); memcpy(b.data(), &v, 8); return b; };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t);
    if (t.op == "huge") {       // past 2^29 bytes the bit count needs its upper word (an optimised build of the same source)
      if (!has_lib("sha.fast")) continue; Lib *f = lib("sha.fast"); size_t n = hugelen(1u << 29, t.arg(0)); Bytes m = content(t.arg(0), n); Buf d(32), b(m); CallOpt co; co.work = n;
      run_on_thread([&] { CUR = nullptr; libcall(co, [&] { f->o->sha256(d.p, b.p, n); }); }, (size_t)3 << 29); uint8_t e[32]; ref::sha256(m.data(), n, e); checked();
      if (memcmp(e, d.p, 32)) fail("wrong-digest", "%s: %zu bytes have digest %s, SHA-256 is %s", f->name.c_str(), n, hex(d.p, 32).c_str(), hex(e, 32).c_str());
      fault(F_STALL); continue;
    }
    if (t.op == "huge2") {      // past 2^31 bytes no count of bytes may be an int
      if (!has_lib("sha.fast")) continue; Lib *f = lib("sha.fast"); size_t n = hugelen(1ul << 31, t.arg(0)); Alias m(n, pos(t.arg(0))); Buf d(32); CallOpt co; co.work = n;
      libcall(co, [&] { f->o->sha256(d.p, m.p, n); }); uint8_t e[32]; ref::sha256(m.p, n, e); checked();
      if (memcmp(e, d.p, 32)) fail("wrong-digest", "%s: %zu bytes have digest %s, SHA-256 is %s", f->name.c_str(), n, hex(d.p, 32).c_str(), hex(e, 32).c_str());
      fault(F_STALL); continue;
    }
    if (t.op == "soak") { cpu_limit(300); u64 n = modn(t.arg(0), 80000); fault(F_STALL); for (u64 q = 0; q < n; q++) { digest(content(t.arg(1) + (i64)q * 16 + 5, (q * 11 + pos(t.arg(1))) % 130), (i64)(q % 3)); simtime(50); } continue; }
    if (t.op == "put") {
      if (disk.size() >= cap) { fault(F_DISKFULL); continue; }
      // short records stay as short as asked for: the number is only there from 8 bytes on
      size_t n = modn(t.arg(0), 12 << 20); Bytes body = content(t.arg(1), n); seq++; if (n >= 8) { Bytes s = le(seq); std::copy(s.begin(), s.end(), body.begin()); }
      Bytes rec = cat(digest(body, t.arg(5)), body); Rng r(pos(t.arg(3)) * 65537 + pos(t.arg(4))); Bytes w = rec; i64 f = (i64)modn(t.arg(2), 11); sig(f);
      size_t sector = 16 << r.below(4);
      switch (f) {
        case 1: w.resize(r.below(rec.size())); fault(F_TORN); break;                                                        // shortened
        case 2: { size_t at = r.below(rec.size()) / sector * sector; for (size_t j = at; j < w.size(); j++) w[j] = 0; fault(F_TORN); break; }   // torn: the rest was never written
        case 3: { if (hist.empty()) break; const Bytes &o = hist[r.below(hist.size())]; size_t at = r.below(rec.size()) / sector * sector; for (size_t j = at; j < w.size(); j++) w[j] = j < o.size() ? o[j] : 0; fault(F_TORN); break; }   // torn over old contents
        case 4: { u64 nb = 1 + r.below(3); for (u64 q = 0; q < nb; q++) w[r.below(w.size())] ^= 1 << r.below(8); fault(F_BITROT); break; }
        case 5: { Bytes z = content(r.next(), 1 + r.below(70)); w = cat(w, z); fault(F_TORN); break; }                      // extended
        case 6: { if (hist.empty()) break; w = hist.back(); fault(F_STALEW); break; }                                      // lost write: the old record is still there
        case 7: { if (hist.size() < 2) break; w = hist[r.below(hist.size())]; fault(F_MISPLACED); break; }
        case 8: { for (size_t j = 0; j + sector <= w.size(); j += sector) if (r.pct(30)) { std::fill(w.begin() + j, w.begin() + j + sector, 0); } fault(F_LOSTW); break; }
        case 9: { if (w.size() > 34) { size_t x = 32 + r.below(w.size() - 33), y = 32 + r.below(w.size() - 33); std::swap(w[x], w[y]); } fault(F_BITROT); break; }
        case 10: { Bytes z(1 + r.below(80), r.pct(50) ? 0 : 0x80); w = cat(w, z); fault(F_TORN); break; }                   // grown by padding-like bytes
      }
      hist.push_back(rec); good.push_back(rec); disk.push_back(w); simtime(2000);
    } else if (t.op == "crash") { fault(F_CRASH); c.sha(content(7, modn(t.arg(1), 4000)), copt(9, (i64)pos(t.arg(0)))); fault(F_RESTART); N.restart(); c.fresh(3); recover(t.arg(0)); }
    else if (t.op == "recover") { fault(F_RESTART); N.restart(); c.fresh(5); recover(t.arg(0)); }
  }
  recover(1);
}

// ================================================================ C15: memory held
// "op" residue code n seed e1 e2; the steps are one round of a program that is repeated
static Plan gen_c15(Rng &r, int tier) {
  Plan p; p.cfg["lib"] = pick_unit(r, true); p.cfg["key"] = r.below(1 << 20); p.cfg["klen"] = r.below(200); p.cfg["res"] = r.below(1000); p.cfg["rounds"] = 10; p.cfg["vary"] = r.pct(70);
  int n = (int)r.range(1, tier ? 12 : 7);
  for (int i = 0; i < n; i++) { std::vector<i64> a = {(i64)r.below(100)}; gen_op(r, a, 900); if (r.pct(30)) a[1] += 8; p.add("op", a); }
  if (rare(97) >= 0) { p.cfg["rounds"] = r.range(400, 1200); p.steps.resize(std::min<size_t>(p.steps.size(), 2)); }      // a leak may need many calls to show
  enlarge(r, p, "op", 2, 12, 17); return p;
}
static void exec_c15(const Plan &p) {
  Lib *l = ulib(p.get("lib"), true); Node N; N.shared = true; auto u = make_unit(l, &N, p.get("key"), p.get("klen"), pos(p.get("res")), 0); sig(fnv(l->name.data(), l->name.size()));
  i64 rounds = 6 + (i64)modn(p.get("rounds") - 6, l->o->kind == K_JL || l->o->kind == K_LHE ? 60 : 1200); std::vector<i64> held, bytes;
  for (i64 k = 0; k < rounds; k++) {
    for (size_t i = 0; i < p.steps.size(); i++) { const Step &t = p.steps[i]; at_step(i, t); auto a = tail(t, 1); if (p.get("vary")) a[2] = pos(a[2]) + 16 * k; Out o = u->op(a, copt(t.arg(0))); sig(mix(modn(a[0], 16), o.ret)); fault(F_RETRY); }
    held.push_back(heap_lib().blocks + heap_gmp().blocks); bytes.push_back(heap_lib().bytes + heap_gmp().bytes);
    tr("   after round %lld: %lld blocks, %lld bytes held", (long long)k, (long long)held.back(), (long long)bytes.back());
  }
  bool grows = true; for (size_t k = held.size() - 5; k < held.size(); k++) if (held[k] <= held[k - 1]) grows = false;
  bool bgrows = true; for (size_t k = bytes.size() - 5; k < bytes.size(); k++) if (bytes[k] <= bytes[k - 1] + 16) bgrows = false;
  checked(2); std::string often = "every time";
  if (rounds >= 300 && !grows && !bgrows) {      // slower, but without end
    size_t m = rounds / 10; grows = bgrows = true; often = "on and on";
    for (i64 k = 4; k < 10; k++) { size_t x = rounds - 1 - (9 - k) * m; if (held[x] <= held[x - m]) grows = false; if (bytes[x] <= bytes[x - m] + 16) bgrows = false; }
  }
  if (grows || bgrows) fail("leak", "%s: repeating the same %zu calls, memory held grows %s: %lld blocks and %lld bytes before the last five rounds, %lld blocks and %lld bytes after", l->name.c_str(), p.steps.size(), often.c_str(), (long long)held[held.size() - 6], (long long)bytes[bytes.size() - 6], (long long)held.back(), (long long)bytes.back());
}

// ================================================================ C19: silence
static Plan gen_c19(Rng &r, int tier) {
  Plan p; p.cfg["lib"] = pick_unit(r, true); p.cfg["key"] = r.below(1 << 20); p.cfg["klen"] = r.below(200); p.cfg["res"] = r.below(1000);
  int n = (int)r.range(2, tier ? 24 : 12);
  for (int i = 0; i < n; i++) { std::vector<i64> a = {(i64)r.below(100), r.pct(10) ? (i64)r.below(8) : -1, r.pct(8) ? gen_tick(r) : -1}; gen_op(r, a, 1500); if (r.pct(30)) a[3] += 8; p.add("op", a); }
  enlarge(r, p, "op", 4, 8, 17); soak(r, p); return p;
}
static void exec_c19(const Plan &p) {
  Lib *l = ulib(p.get("lib"), true); Node N; auto u = make_unit(l, &N, p.get("key"), p.get("klen"), pos(p.get("res")), 0); sig(fnv(l->name.data(), l->name.size())); bool gmpk = l->o->kind == K_JL || l->o->kind == K_LHE;
  auto silent = [&](const char *what) { checked(); u64 b = output_bytes(); if (b) fail("output", "%s: %s wrote %llu bytes to standard output or error", l->name.c_str(), what, (unsigned long long)b); if (FILE_WRITES) fail("output", "%s: %s wrote to a file or socket", l->name.c_str(), what); };
  silent("keying");
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); CallOpt c = copt(t.arg(0));
    if (t.op == "soak") { cpu_limit(300); Rng r(pos(t.arg(1)) + 7); u64 n = soak_len(l, t, 80000); fault(F_STALL); for (u64 q = 0; q < n; q++) { u->op(soak_op(r, t), copt((i64)(q % 3))); if (FILE_WRITES) break; } silent("one of many calls"); SH->nontrivial = 1; continue; }
    if (!gmpk) { c.fail_alloc = t.arg(1); if (t.arg(2) >= 0) { c.stop_at = t.arg(2); fault(F_ABANDON); } }
    auto a = tail(t, 3); Out o = u->op(a, c); sig(mix(modn(a[0], 16), o.ret)); silent("a call"); if (o.st != C_OK) u->rekey(3);
    SH->nontrivial = 1;
  }
}

// ================================================================ C20: lines of hex text
// "line" n seed residue fate a b delay | "abandon" which tick n residue | "restart" which | "parts" n seed cuts | "huge" seed
static Plan gen_c20(Rng &r, int tier) {
  Plan p; p.cfg["shared"] = r.pct(50); p.cfg["res"] = r.below(1000); int faultpct = (int)r.range(0, 3) * 15, n = (int)r.range(4, tier ? 60 : 30), style = (int)r.below(3);
  for (int i = 0; i < n; i++) {
    if (faultpct && r.pct(6)) { p.add("abandon", {(i64)r.below(2), gen_tick(r), (i64)r.below(400), (i64)r.below(100)}); continue; }
    if (faultpct && r.pct(3)) { p.add("restart", {(i64)r.below(2)}); continue; }
    i64 sz = style == 0 ? r.range(0, 40) : gsize(r, style == 1 ? 300 : 1500);
    if (r.pct(15)) { p.add("parts", {sz, (i64)r.below(1 << 20), (i64)r.below(1 << 20)}); continue; }
    std::vector<i64> a = {sz, (i64)r.below(1 << 20), (i64)r.below(100)}; gen_fate(r, a, faultpct); p.add("line", a);
  }
  enlarge(r, p, "line", 0, 6, 18); soak(r, p);
  if (rare(50001) >= 0) p.add("huge", {(i64)r.below(1 << 16)});
  return p;
}
static void exec_c20(const Plan &p) {
  Lib *l = lib("hex"); Node N[2]; N[0].shared = N[1].shared = p.get("shared"); std::unique_ptr<Ctx> c[2]; for (int w = 0; w < 2; w++) c[w].reset(new Ctx(l, &N[w], pos(p.get("res")) + w));
  Net net; std::vector<Bytes> body;
  auto text = [](const Bytes &m) { std::string s = upper(m); return Bytes(s.begin(), s.end()); };
  auto encode = [&](const Bytes &m, i64 res) {
    Out o = c[0]->hexenc(m, copt(res)); Bytes ex = text(m); ex.push_back(0); checked();
    if (o.st != C_OK || o.b != ex) fail("wrong-text", "%zu bytes %s are encoded as \"%.200s\"", m.size(), hex(m).c_str(), std::string(o.b.begin(), o.b.end()).c_str());
    ex.pop_back(); return ex;
  };
  auto decode = [&](const Bytes &x, const Bytes &sent, const Bytes &m, i64 res, const char *what) {      // every pair of characters that is as sent gives the byte that was sent
    Out o = c[1]->hexdec(x, copt(res)); checked(); if (o.st != C_OK) fail("crash", "decoding raised an exception");
    for (size_t j = 0; j < x.size() / 2 && j < m.size(); j++) if (x[2 * j] == sent[2 * j] && x[2 * j + 1] == sent[2 * j + 1] && o.b[j] != m[j]) fail("wrong-bytes", "%s of %zu characters: byte %zu is decoded as %02x, \"%c%c\" was sent", what, x.size(), j, o.b[j], sent[2 * j], sent[2 * j + 1]);
    return o.b;
  };
  auto deliver = [&](const Msg &q) { const Bytes &m = body[q.id]; sig(mix(q.data.size() & 127, q.intact)); Bytes got = decode(q.data, text(m), m, q.id * 5 + 1, q.intact ? "a line" : "a damaged line"); if (q.intact && got != m) fail("wrong-bytes", "a line of %zu characters is decoded to other bytes than were encoded", q.data.size()); };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); size_t w = modn(t.arg(0), 2);
    if (t.op == "line") { Bytes m = content(t.arg(1), modn(t.arg(0), 1 << 20)); Msg q; q.id = (int)body.size(); body.push_back(m); q.data = encode(m, t.arg(2)); q.intact = true; net.send(i, q, t.arg(3), t.arg(4), t.arg(5), t.arg(6)); }
    else if (t.op == "soak") { cpu_limit(300); u64 n = modn(t.arg(0), 80000); fault(F_STALL); for (u64 q = 0; q < n; q++) { Bytes m = content(t.arg(1) + (i64)q * 16 + 5, (q * 7 + pos(t.arg(1))) % (t.arg(2) & 1 ? 9 : 70)), x = encode(m, (i64)(q % 5)); if (decode(x, x, m, (i64)(q % 3), "a line") != m) fail("wrong-bytes", "line %llu of many is decoded to other bytes than were encoded", (unsigned long long)q); simtime(50); } }
    else if (t.op == "abandon") { fault(F_ABANDON); Bytes m = content(t.arg(3), modn(t.arg(2), 4096)); CallOpt o = copt(t.arg(3), (i64)pos(t.arg(1))); if (w) c[1]->hexdec(text(m), o); else c[0]->hexenc(m, o); }
    else if (t.op == "restart") { fault(F_RESTART); N[w].restart(); c[w]->fresh(i); }
    else if (t.op == "parts") {      // a line that arrives in pieces is decoded piece by piece
      Bytes m = content(t.arg(1), modn(t.arg(0), 1 << 16)), x = encode(m, t.arg(2)), got; Rng r(pos(t.arg(2))); fault(F_DELAY);
      for (size_t at = 0; at < x.size();) { size_t n = std::min<size_t>(x.size() - at, 2 * (1 + r.below(40))); Bytes o = decode(sub(x, at, n), sub(x, at, n), sub(m, at / 2, n / 2), (i64)at, "a piece"); got = cat(got, o); at += n; }
      checked(); if (got != m) fail("wrong-bytes", "a line of %zu characters in pieces is decoded to other bytes than were encoded", x.size());
    }
    else if (t.op == "huge" && has_lib("hex.o0.fast")) {      // a text longer than 2^31 characters
      Lib *f = lib("hex.o0.fast"); Ctx x(f, &N[0], 3); size_t n = ((size_t)1 << 30) + 10 + modn(t.arg(0), 500); Alias in(n, t.arg(0)), out(2 * n + 1, 7); CallOpt co; co.work = n; libcall(co, [&] { f->o->hex_enc((char *)out.p, in.p, (int)n); });
      Rng r(pos(t.arg(0))); for (int q = 0; q < 500; q++) { size_t at = n - 1 - r.below(q < 100 ? 64 : 1 << 23); checked(); if (out.p[2 * at] != "0123456789ABCDEF"[in.p[at] >> 4] || out.p[2 * at + 1] != "0123456789ABCDEF"[in.p[at] & 15]) fail("wrong-text", "byte %zu of %zu is encoded as \"%c%c\", it is %02x", at, n, out.p[2 * at], out.p[2 * at + 1], in.p[at]); }
      if (out.p[2 * n]) fail("wrong-text", "the text of %zu bytes has no end", n); fault(F_STALL);
    }
    for (auto &m : net.due(i)) deliver(m);
  }
  for (auto &m : net.drain()) deliver(m);
}

// ================================================================ C21: a forger with a clock
// The simulated clock counts the steps of a call, so it is as exact as a clock can be.
// "probe" n ad seed taglen i j bits residue | "sweep" n ad seed taglen bits | "guess" n seed positions | "rekey" key klen | "pkt" n ad seed taglen | "abandon" tick n residue | "restart"
static Plan gen_c21(Rng &r, int tier) {
  Plan p; p.cfg["kind"] = r.below(2); p.cfg["var"] = r.below(6); p.cfg["shared"] = r.pct(50); p.cfg["res"] = r.below(1000); p.cfg["key"] = r.below(1 << 20); p.cfg["klen"] = r.below(150);
  int n = (int)r.range(3, tier ? 30 : 14), style = (int)r.below(3); i64 tl = r.pct(60) ? 15 : r.range(0, 31);
  auto len = [&]() -> i64 { return style == 0 ? r.range(1, 20) : style == 1 ? r.range(1, 70) : std::max<i64>(1, gsize(r, 700)); };
  for (int i = 0; i < n; i++) {
    if (r.pct(6)) { p.add("rekey", {(i64)r.below(1 << 20), (i64)r.below(150)}); continue; }
    if (r.pct(4)) { p.add("restart", {(i64)r.below(100)}); continue; }
    if (r.pct(6)) { p.add("abandon", {gen_tick(r) * 4, (i64)r.range(1, 300), (i64)r.below(100)}); continue; }
    if (r.pct(15)) { p.add("pkt", {len(), len() - 1, (i64)r.below(1 << 20), tl}); continue; }
    if (r.pct(20)) { p.add("sweep", {len(), len() - 1, (i64)r.below(1 << 20), tl, (i64)r.below(1 << 16)}); continue; }
    if (r.pct(6)) { p.add("guess", {r.range(1, 60), (i64)r.below(1 << 20), r.range(1, 3)}); continue; }
    p.add("probe", {len(), len() - 1, (i64)r.below(1 << 20), r.pct(70) ? tl : r.range(0, 31), (i64)r.below(32), (i64)r.below(32), (i64)r.below(1 << 16), (i64)r.below(100)});
  }
  enlarge(r, p, "probe", 0, 4, 16); soak(r, p);
  return p;
}
static void exec_c21(const Plan &p) {
  std::vector<std::string> vs = variants(modn(p.get("kind"), 2) ? "hmac" : "aegis"); if (vs.empty()) vs = variants("aegis"); Lib *l = lib(vs[modn(p.get("var"), vs.size())]); bool mac = l->o->kind == K_HMAC;
  Node N; N.shared = p.get("shared"); Ctx c(l, &N, pos(p.get("res"))); Bytes key; sig(fnv(l->name.data(), l->name.size()));
  auto load = [&](i64 s, i64 n) { key = content(s, mac ? modn(n, 200) : 16); c.load_key(key); }; load(p.get("key"), p.get("klen"));
  struct Pk { Bytes m, ad, iv, tag; };
  auto packet = [&](i64 n, i64 an, i64 seed, i64 tl) {      // an authentic one
    Pk k; k.m = content(seed, std::max<u64>(1, modn(n, 1 << 17))); k.ad = content(seed + 1, modn(an, 1 << 17)); k.iv = content(seed * 3 + 1, 16); k.tag.resize(32);
    if (mac) { ref::hmac_sha256(key.data(), key.size(), k.m.data(), k.m.size(), k.tag.data()); k.tag.resize(1 + modn(tl, 32)); }
    else { Bytes ct(k.m.size()); k.tag.resize(16); ref::aegis128(key.data(), k.iv.data(), k.ad.data(), k.ad.size(), k.m.data(), k.m.size(), ct.data(), k.tag.data()); k.m = ct; }
    return k;
  };
  auto present = [&](const Pk &k, const Bytes &tag, i64 res) { Out o = mac ? c.validate(tag, k.m, res & 1, copt(res)) : c.open(k.m, tag, k.ad, k.iv, copt(res)); if (o.st != C_OK) fail("crash", "checking a tag raised an exception"); return o.ret != 0; };
  auto steps = [&](const Pk &k, size_t at, u64 bits, i64 res) {      // of rejecting the packet with one byte of its tag changed
    Bytes t = k.tag; t[at] ^= bits ? bits : 1; fault(F_FORGE); checked();
    if (present(k, t, res)) fail("forgery-accepted", "%s: a packet with byte %zu of its %zu-byte tag changed is accepted", l->name.c_str(), at, t.size());
    return LAST_TICKS;
  };
  auto same = [&](u64 a, u64 b, size_t i, size_t j, size_t tl) { checked(); if (a != b) fail("timing", "%s: rejecting a %zu-byte tag that is wrong in byte %zu takes %llu steps, in byte %zu %llu", l->name.c_str(), tl, i, (unsigned long long)a, j, (unsigned long long)b); };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); simtime(100);
    if (t.op == "probe") {
      Pk k = packet(t.arg(0), t.arg(1), t.arg(2), t.arg(3)); size_t a = modn(t.arg(4), k.tag.size()), b = modn(t.arg(5), k.tag.size()); sig(k.tag.size() * 64 + a);
      steps(k, a, t.arg(6) & 255, t.arg(7)); u64 sb = steps(k, b, t.arg(6) >> 8 & 255, t.arg(7)), sa = steps(k, a, t.arg(6) & 255, t.arg(7)); same(sa, sb, a, b, k.tag.size());
    } else if (t.op == "sweep") {
      Pk k = packet(t.arg(0), t.arg(1), t.arg(2), t.arg(3)); sig(k.tag.size()); Rng r(pos(t.arg(4))); std::vector<u64> s(k.tag.size()); steps(k, 0, 1, 3);
      for (size_t j = 0; j < s.size(); j++) s[j] = steps(k, j, 1 + r.below(255), 4);
      for (size_t j = 1; j < s.size(); j++) same(s[0], s[j], 0, j, s.size());
    } else if (t.op == "soak") {      // a forger with patience
      cpu_limit(300); u64 n = std::min<u64>(modn(t.arg(0), 80000), 20000); Rng r(pos(t.arg(1)) + 7); Pk k = packet(1 + r.below(40), 3, t.arg(1), 15); u64 was = 0; size_t wj = 0;
      for (u64 q = 0; q < n; q++) { if (t.arg(2) & 1 && r.pct(20)) { checked(); if (!present(k, k.tag, 4)) fail("authentic-rejected", "%s: an authentic packet is rejected after %llu forgeries", l->name.c_str(), (unsigned long long)q); continue; } size_t j = r.below(k.tag.size()); u64 s = steps(k, j, 1 + r.below(255), 4); if (was) same(was, s, wj, j, k.tag.size()); was = s; wj = j; }
    } else if (t.op == "guess" && mac) {      // byte by byte, keeping the value that is rejected last
      Pk k = packet(t.arg(0), 0, t.arg(1), 15); Bytes g(16, 0); size_t np = 1 + modn(t.arg(2), 3), right = 0; Rng r(pos(t.arg(1)) + 9); for (size_t j = np; j < 16; j++) g[j] = ~k.tag[j];       // never the tag itself
      for (size_t j = 0; j < np; j++) { u64 best = 0; int arg = 0; bool tie = true; for (int v = 0; v < 256; v++) { g[j] = v; present(k, g, 4); u64 s = LAST_TICKS; if (v && s != best) tie = false; if (s > best) { best = s; arg = v; } } g[j] = tie ? (uint8_t)~k.tag[j] : arg; right += g[j] == k.tag[j]; }
      fault(F_FORGE); checked(); sig(right); if (right == np) fail("timing", "%s: a forger who watches the clock finds the first %zu bytes of a tag", l->name.c_str(), np);
    } else if (t.op == "pkt") { Pk k = packet(t.arg(0), t.arg(1), t.arg(2), t.arg(3)); checked(); if (!present(k, k.tag, 6)) fail("authentic-rejected", "%s: an authentic packet is rejected", l->name.c_str()); }
    else if (t.op == "rekey") { fault(F_REKEY); load(t.arg(0), t.arg(1)); }
    else if (t.op == "abandon") { fault(F_ABANDON); Bytes m = content(t.arg(2), 1 + modn(t.arg(1), 1000)); CallOpt o = copt(t.arg(2), (i64)pos(t.arg(0))); if (mac) c.validate(content(5, 16), m, false, o); else c.open(m, content(5, 16), content(6, 9), content(7, 16), o); }
    else if (t.op == "restart") { fault(F_RESTART); N.restart(); c.fresh(t.arg(0)); c.load_key(key); }
  }
}
extern const Scenario unit_scenarios[] = {{"C21", gen_c21, exec_c21}, {"C20", gen_c20, exec_c20}, {"C06", gen_c06, exec_c06}, {"C07", gen_c07, exec_c07}, {"C08", gen_c08, exec_c08}, {"C09", gen_c09, exec_c09}, {"C10", gen_c10, exec_c10}, {"C11", gen_c11, exec_c11}, {"C15", gen_c15, exec_c15}, {"C19", gen_c19, exec_c19}, {0, 0, 0}};
