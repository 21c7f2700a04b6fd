// Scenarios over the simulated network: C01 C02 C03 C04 C05 C17 C18.
#include "scen.h"
#include <memory>
static i64 pick_var(Rng &r, int n) { return (i64)r.below(n); }
static Lib *var_lib(const std::string &kind, i64 v) { auto a = variants(kind); return lib(a[modn(v, a.size())]); }

static std::string kind_of(std::initializer_list<const char *> kinds, i64 v) { std::vector<std::string> a; for (auto k : kinds) if (!variants(k).empty()) a.push_back(k); return a[modn(v, a.size())]; }
// ================================================================ C01
static Plan gen_c01(Rng &r, int tier) {
  Plan p; p.cfg["var"] = pick_var(r, 5); p.cfg["key"] = r.below(1 << 20); p.cfg["iv"] = r.below(1 << 20); p.cfg["shared"] = r.pct(30); p.cfg["res"] = r.below(1000);
  int faultpct = (int)r.range(0, 3) * 15; int n = (int)r.range(4, tier ? 80 : 40); int style = (int)r.below(4);
  for (int i = 0; i < n; i++) {
    if (faultpct && r.pct(4)) { p.add(r.pct(50) ? "restart_s" : "restart_r", {r.pct(50) ? gen_tick(r) : -1, (i64)r.range(1, 80)}); continue; }
    if (faultpct && r.pct(3)) { p.add("part", {(i64)r.range(1, 4)}); continue; }
    if (r.pct(2)) { p.add("rekey", {(i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(2)}); continue; }
    i64 sz = style == 0 ? r.range(1, 15) : style == 1 ? r.range(1, 40) : style == 2 ? 16 * r.range(0, 5) : gsize(r, 600);
    std::vector<i64> a = {sz, (i64)r.below(1 << 20)}; gen_fate(r, a, faultpct, r.pct(60)); a.push_back(r.below(1 << 10));
    p.add("seg", a);
  }
  enlarge(r, p, "seg", 0, 6, 18); soak(r, p);
  return p;
}
static void exec_c01(const Plan &p) {
  Lib *l = var_lib("cfb", p.get("var"));
  Node S, R; S.shared = R.shared = p.get("shared");
  Bytes key = content(p.get("key"), 16), iv = content(p.get("iv"), 16);
  Ctx s(l, &S, p.get("res")), r(l, &R, p.get("res") + 1); s.init(key, iv); r.init(key, iv);
  sig(fnv(l->name.data(), l->name.size()));
  std::vector<Bytes> keys = {key}, ivs = {iv}; int epoch = 0; struct Seg { Bytes pt, ct; int epoch, pred; bool prev_full; Bytes prev_ct; };
  std::vector<Seg> segs; int pred = -1; bool prev_full = true; Bytes reg = iv;
  const int BROKEN = -3; int INIT = -10;       // INIT stands for a fresh start under the current key
  int last = INIT; u64 run = 0; bool synced = true; Net net; i64 part_until = -1;
  auto deliver = [&](const Msg &m) {
    const Seg &g = segs[m.id];
    if (m.data.empty()) { r.process(m.data, 1, copt(m.id)); if (!m.intact) { last = BROKEN; run = 0; } return; }
    Out o = r.process(m.data, 1, copt(m.id * 3 + 1));
    if (o.st != C_OK) fail("crash", "decryption of segment %d raised an exception", m.id);
    bool cont = last == g.pred && g.epoch == epoch && (synced || run >= 16);
    bool chain = last == g.pred;
    tr("   recv segment %d (%zu bytes, %s) %s", m.id, m.data.size(), m.intact ? "intact" : "damaged", cont ? "must be exact" : "out of step");
    if (m.intact) {
      if (cont) { checked(); if (o.b != g.pt) fail("wrong-plaintext", "%s: intact segment %d of %zu bytes, received in step, decrypts to %s, sent %s", l->name.c_str(), m.id, g.pt.size(), hex(o.b).c_str(), hex(g.pt).c_str()); }
      if (!chain) { synced = false; run = 0; }
      run += m.data.size(); last = m.id; sig(cont ? 3 : 4);
    } else if (m.fate == FT_CORRUPT && cont) {
      size_t b0 = m.first_flip / 16, b1 = m.last_flip / 16;
      for (size_t i = 0; i < g.pt.size(); i++) {
        size_t b = i / 16; bool touched = false;
        if (b >= b0 && b <= b1 + 1) touched = true;   // blocks between first and last flip: judged only outside
        if (!touched && o.b[i] != g.pt[i]) fail("error-propagation", "%s: bits flipped in blocks %zu..%zu of segment %d garbled byte %zu", l->name.c_str(), b0, b1, m.id, i);
      }
      checked();
      u64 tail = m.data.size() > 16 * (b1 + 1) ? m.data.size() - 16 * (b1 + 1) : 0;
      synced = false;
      if (tail >= 16) { run = tail; last = m.id; } else { run = 0; last = BROKEN; }
      sig(5);
    } else { last = BROKEN; run = 0; synced = false; sig(6); }
  };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t);
    net.part = (i64)i < part_until;
    if (t.op == "seg") {
      Bytes pt = content(t.arg(1), modn(t.arg(0), 1 << 20));
      Out o = s.process(pt, 0, copt(t.arg(6)));
      if (o.st != C_OK) fail("crash", "encryption raised an exception");
      Seg g; g.epoch = epoch; g.pt = pt; g.ct = o.b; g.pred = pred; g.prev_full = prev_full;
      // published CFB-128 wherever the feedback block is known
      for (size_t k = 0; k + 16 <= pt.size(); k += 16) {
        if (k == 0 && !prev_full) continue;
        uint8_t rg[16], ex[16]; memcpy(rg, k ? &o.b[k - 16] : reg.data(), 16);
        ref::cfb128(key.data(), rg, &pt[k], ex, 16, false, l->reduced);
        checked(); if (memcmp(ex, &o.b[k], 16)) fail("not-cfb", "%s: block %zu of segment %zu is %s on the wire, CFB-128 gives %s", l->name.c_str(), k / 16, segs.size(), hex(&o.b[k], 16).c_str(), hex(ex, 16).c_str());
      }
      int id = (int)segs.size();
      if (!pt.empty()) { pred = id; prev_full = pt.size() % 16 == 0; if (prev_full) reg = sub(o.b, pt.size() - 16, 16); }
      segs.push_back(g);
      Msg m; m.id = id; m.data = o.b; m.intact = true;
      net.send(i, m, t.arg(2), t.arg(3), t.arg(4), t.arg(5));
    } else if (t.op == "restart_s") {
      if (t.arg(0) >= 0) { fault(F_CRASH); s.process(content(t.arg(1), modn(t.arg(1), 500)), 0, copt(5, t.arg(0))); }
      fault(F_RESTART); S.restart(); s.fresh(t.arg(1)); s.init(key, iv); pred = INIT; prev_full = true; reg = iv;
    } else if (t.op == "restart_r") {
      if (t.arg(0) >= 0) { fault(F_CRASH); r.process(content(t.arg(1), modn(t.arg(1), 500)), 1, copt(5, t.arg(0))); }
      fault(F_RESTART); R.restart(); r.fresh(t.arg(1)); r.init(key, iv); last = INIT; synced = true; run = 0;
    } else if (t.op == "rekey") {
      for (auto &m : net.drain()) deliver(m);
      fault(F_REKEY); key = related(keys, t.arg(0), 16); iv = related(ivs, t.arg(1), 16); keys.push_back(key); ivs.push_back(iv); epoch++; INIT--; Ctx *o[2] = {&s, &r};
      for (int w = 0; w < 2; w++) o[w ^ modn(t.arg(2), 2)]->init(key, iv, copt(t.arg(0) + w));
      pred = last = INIT; prev_full = true; reg = iv; synced = true; run = 0;
    } else if (t.op == "part") part_until = i + 1 + (i64)modn(t.arg(0), 16);
    else if (t.op == "soak") { cpu_limit(300);        // a long quiet time
      for (auto &m : net.drain()) deliver(m);
      u64 c = modn(t.arg(0), 80000); i64 z = (i64)modn(t.arg(2), 4); fault(F_STALL);
      for (u64 q = 0; q < c; q++) {
        size_t sz = z == 0 ? 16 : z == 1 ? 1 + (q * 7 + pos(t.arg(1))) % 15 : z == 2 ? 1 + (q * 5) % 33 : 1 + pos(t.arg(1)) % 24; Seg g; g.epoch = epoch; g.pt = content(t.arg(1) + (i64)(q % 5000) * 16 + 5, sz);
        Out o = s.process(g.pt, 0, copt((i64)(q % 3))); if (o.st != C_OK) fail("crash", "encryption raised an exception");
        g.ct = o.b; g.pred = pred; g.prev_full = prev_full; Msg m; m.id = (int)segs.size(); m.data = o.b; m.intact = true; m.fate = 0; pred = m.id; prev_full = sz % 16 == 0; if (prev_full) reg = sub(o.b, sz - 16, 16);
        segs.push_back(g); deliver(m); simtime(300);
      }
    }
    for (auto &m : net.due(i)) deliver(m);
  }
  for (auto &m : net.drain()) deliver(m);
  // faults have stopped: within two intact segments the link must be exact again
  net.part = false;
  for (int k = 0; k < 4; k++) {
    size_t i = p.steps.size() + k; Bytes pt = content(1000 + p.seed + k, 8 + 13 * k);
    Out o = s.process(pt, 0); Seg g; g.epoch = epoch; g.pt = pt; g.ct = o.b; g.pred = pred; int id = (int)segs.size(); pred = id; segs.push_back(g);
    Msg m; m.id = id; m.data = o.b; m.intact = true; m.fate = 0; SH->step = (int)i; deliver(m);
  }
}

// ================================================================ C02
static Plan gen_c02(Rng &r, int tier) {
  Plan p; p.cfg["kind"] = r.below(6); p.cfg["var"] = pick_var(r, 12); p.cfg["key"] = r.below(1 << 20); p.cfg["klen"] = r.pct(50) ? r.range(0, 32) : 31; p.cfg["shared"] = r.pct(30); p.cfg["res"] = r.below(1000);
  p.cfg["ivonly"] = r.pct(60);
  int faultpct = (int)r.range(0, 3) * 15; int n = (int)r.range(3, tier ? 40 : 22); bool big = r.pct(3);
  for (int i = 0; i < n; i++) {
    if (faultpct && r.pct(6)) { p.add("restart", {(i64)r.below(2), r.pct(50) ? gen_tick(r) : -1, (i64)r.range(1, 300)}); continue; }
    if (r.pct(8)) { p.add("rekey", {(i64)r.below(1 << 20), r.range(0, 32)}); continue; }
    if (r.pct(20)) { p.add("abandon", {(i64)r.below(2), (i64)r.below(4), gen_tick(r), (i64)r.range(0, 400), (i64)r.below(1 << 16)}); continue; }
    if (r.pct(8)) { p.add("early", {(i64)r.below(2), gsize(r, 600)}); continue; }
    if (p.cfg["kind"] == 3 && r.pct(10)) { p.add("block", {r.pct(50) ? (i64)r.below(1ull << 32) : (i64)(0xffffffffull - r.below(2))}); continue; }
    i64 sz = gsize(r, 3000); if (big && r.pct(30)) sz = r.range(5000, tier ? 400000 : 70000);
    i64 iv = (i64)r.below(1 << 20); if (p.cfg["kind"] == 1 && r.pct(35)) iv = -iv;
    std::vector<i64> a = {sz, (i64)r.below(1 << 20), iv}; gen_fate(r, a, faultpct); a.push_back(r.below(1 << 10)); a.push_back(r.pct(25) ? 1 + r.below(1 << 20) : 0);
    p.add("pkt", a);
  }
  enlarge(r, p, "pkt", 0, 6);
  if (rare(15001) >= 0) p.add("huge", {(i64)r.below(1 << 16)});
  soak(r, p); return p;
}
static void exec_c02(const Plan &p) {
  Lib *l = var_lib(kind_of({"hc128", "rabbit", "sosemanuk", "chacha", "ctr", "serpent"}, p.get("kind")), p.get("var"));
  Node N[2]; N[0].shared = N[1].shared = p.get("shared");
  std::unique_ptr<Ctx> c[2]; for (int k = 0; k < 2; k++) c[k].reset(new Ctx(l, &N[k], p.get("res") + k));
  sig(fnv(l->name.data(), l->name.size()));
  std::vector<Bytes> keys = {stream_key(l->o, p.get("key"), p.get("klen"))};
  int cur[2] = {-1, -1}; bool ivonly = p.get("ivonly") && l->o->load_key;
  struct Pk { Bytes pt, iv; int key; }; std::vector<Pk> pk; std::vector<Bytes> ivs; Net net;
  auto rekey = [&](int who, int key, const Bytes &iv, i64 res) -> Bytes {
    Out o;
    if (ivonly) { if (cur[who] != key) { o = c[who]->load_key(keys[key], copt(res)); cur[who] = key; } o = c[who]->load_iv(iv, copt(res + 1)); if (o.mod.count(0)) return o.mod[0]; }
    else { o = c[who]->init(keys[key], iv, copt(res)); cur[who] = key; }
    if (o.st != C_OK) fail("crash", "%s: keying raised an exception", l->name.c_str());
    return o.held(1, iv);
  };
  auto c2 = [&](int w, const Bytes &pt, i64 res) { Out o = c[w]->process(pt, w, copt(res)); if (o.st != C_OK) fail("crash", "%s: processing raised an exception", l->name.c_str()); return o; };
  auto deliver = [&](const Msg &m) {
    const Pk &k = pk[m.id]; rekey(1, k.key, k.iv, m.id * 7 + 1);
    Out o = c[1]->process(m.data, 1, copt(m.id * 5 + 2));
    if (o.st != C_OK) fail("crash", "%s: processing raised an exception", l->name.c_str());
    tr("   recv packet %d (%zu bytes, %s)", m.id, m.data.size(), m.intact ? "intact" : "damaged");
    sig(m.intact ? 1 : 2);
    if (m.intact) { checked(); if (o.b != k.pt) fail("wrong-plaintext", "%s: packet %d of %zu bytes decrypts to %s, sent %s (key %s iv %s)", l->name.c_str(), m.id, k.pt.size(), hex(o.b).c_str(), hex(k.pt).c_str(), hex(keys[k.key]).c_str(), hex(k.iv).c_str()); }
  };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t);
    if (t.op == "pkt") {
      Pk k; k.key = (int)keys.size() - 1; k.iv = t.arg(8) ? related(ivs, t.arg(8), l->o->iv_len) : stream_iv(l, keys[k.key], t.arg(2)); ivs.push_back(k.iv); k.pt = content(t.arg(1), modn(t.arg(0), 5000000));
      Bytes wire = rekey(0, k.key, k.iv, t.arg(7)); Out o = c[0]->process(k.pt, 0, copt(t.arg(7)));
      if (o.st != C_OK) fail("crash", "%s: processing raised an exception", l->name.c_str());
      Bytes ex = xorb(k.pt, ref_stream(l, keys[k.key], k.iv, k.pt.size())); checked();
      if (o.b != ex) { size_t at = 0; while (o.b[at] == ex[at]) at++;
        fail("not-published", "%s: packet of %zu bytes differs from the published algorithm at byte %zu: %s, expected %s (key %s iv %s)", l->name.c_str(), k.pt.size(), at, hex(sub(o.b, at, 16)).c_str(), hex(sub(ex, at, 16)).c_str(), hex(keys[k.key]).c_str(), hex(k.iv).c_str()); }
      Msg m; m.id = (int)pk.size(); m.data = o.b; m.intact = true; k.iv = wire; pk.push_back(k);
      net.send(i, m, t.arg(3), t.arg(4), t.arg(5), t.arg(6));
    } else if (t.op == "rekey") { fault(F_REKEY); keys.push_back(related(keys, t.arg(0), stream_key(l->o, 0, t.arg(1)).size())); }
    else if (t.op == "restart") {
      int w = (int)modn(t.arg(0), 2);
      if (t.arg(1) >= 0) { fault(F_CRASH); if (cur[w] < 0) rekey(w, 0, stream_iv(l, keys[0], 3), 3); c[w]->process(content(t.arg(2), modn(t.arg(2), 2000)), w, copt(5, t.arg(1))); }
      fault(F_RESTART); N[w].restart(); c[w]->fresh(t.arg(2)); cur[w] = -1;
    } else if (t.op == "abandon" || t.op == "early") {
      int w = (int)modn(t.arg(0), 2);
      if (cur[w] < 0) rekey(w, (int)keys.size() - 1, stream_iv(l, keys.back(), 3), 3);
      if (t.op == "early") { c[w]->process(content(t.arg(1), modn(t.arg(1), 4000)), w); }
      else {
        fault(F_ABANDON); CallOpt o = copt(t.arg(4), (i64)pos(t.arg(2))); Out q;
        i64 op = (i64)modn(t.arg(1), 4); if (op == 1 && !l->o->load_iv) op = 0; if (op == 3 && !l->o->load_key) op = 2;
        if (op == 0) q = c[w]->process(content(t.arg(4), modn(t.arg(3), 3000)), w, o);
        else if (op == 1) q = c[w]->load_iv(stream_iv(l, keys.back(), t.arg(4)), o);
        else if (op == 2) { q = c[w]->init(keys.back(), stream_iv(l, keys.back(), t.arg(4)), o); cur[w] = q.st == C_OK ? (int)keys.size() - 1 : -1; }
        else { q = c[w]->load_key(keys.back(), o); cur[w] = q.st == C_OK ? (int)keys.size() - 1 : -1; }
        sig(op * 2 + (q.st == C_STOPPED));
      }
    } else if (t.op == "huge" && has_lib("chacha.fast")) {      // past 2^31 bytes no count of bytes may be an int
      Lib *f = lib("chacha.fast"); Ctx x(f, &N[0], 3); Bytes key = content(pos(t.arg(0)) | 5, 32), iv = content(pos(t.arg(0)) | 3, 12); size_t n = (1ul << 31) - 40 + modn(t.arg(0), 200);
      Alias in(n, 1), out(n, 2); x.init(key, iv); CallOpt co; co.work = n; libcall(co, [&] { f->o->process(x.mem.p, out.p, in.p, n, 0); }); checked(); Rng r(pos(t.arg(0)));
      for (int q = 0; q < 400; q++) {      // of the output, the last 64 MB remain
        size_t at = q < 4 ? n - 1 - q * 20 : n - 1 - r.below(Alias::BLOCK); uint8_t ks[64]; ref::chacha_block(key.data(), iv.data(), (uint32_t)(1 + at / 64), f->rounds, ks);
        if (out.p[at] != (in.p[at] ^ ks[at % 64])) fail("not-published", "%s: byte %zu of a packet of %zu bytes differs from the published algorithm", f->name.c_str(), at, n);
      }
    } else if (t.op == "soak") { cpu_limit(300);       // many packets in a row
      bool slow = l->o->kind == K_HC128 || l->o->kind == K_SOSE || l->o->kind == K_SERP; u64 c = std::min<u64>(modn(t.arg(0), 80000), slow ? 20000 : 80000); int key = (int)keys.size() - 1; size_t sz = 1 + pos(t.arg(1)) % 40; fault(F_STALL);
      for (u64 q = 0; q < c; q++) {
        Bytes iv = content(t.arg(1) + (i64)q * 16 + 5, l->o->iv_len), pt = content(t.arg(1) + (i64)(q % 1000), t.arg(2) ? sz : 1 + q % 40); int w = (int)(t.arg(2) & 1);
        Bytes wire = rekey(w, key, iv, (i64)(q % 5)); Out o = c2(w, pt, (i64)(q % 3)); Bytes ex = xorb(pt, ref_stream(l, keys[key], iv, pt.size())); checked(); simtime(200);
        if (o.b != ex) fail("not-published", "%s: the %llu-th of many packets (%zu bytes) differs from the published algorithm: %s, expected %s", l->name.c_str(), (unsigned long long)q, pt.size(), hex(o.b).c_str(), hex(ex).c_str());
      }
    } else if (t.op == "block" && l->o->kind == K_CHACHA) {
      Bytes iv = content(t.arg(0), 12); rekey(1, (int)keys.size() - 1, iv, 9);
      Out o = c[1]->cblock((uint32_t)t.arg(0)); uint8_t ex[64]; ref::chacha_block(keys.back().data(), iv.data(), (uint32_t)t.arg(0), l->rounds, ex);
      checked(); if (memcmp(ex, o.b.data(), 64)) fail("not-published", "%s: block with counter %u differs from the published algorithm", l->name.c_str(), (uint32_t)t.arg(0));
    }
    for (auto &m : net.due(i)) deliver(m);
  }
  for (auto &m : net.drain()) deliver(m);
}

// ================================================================ C03
static Plan gen_c03(Rng &r, int tier) {
  Plan p; p.cfg["kind"] = r.below(6); p.cfg["var"] = pick_var(r, 12); p.cfg["key"] = r.below(1 << 20); p.cfg["klen"] = r.range(0, 31); p.cfg["shared"] = r.pct(50);
  p.cfg["res"] = r.below(1000); p.cfg["nsess"] = r.pct(30) ? r.range(2, 3) : 1; p.cfg["iv"] = r.below(1 << 20); p.cfg["lag"] = r.pct(50) ? r.range(1, 6) : 0;
  int style = (int)r.below(5); int n = (int)r.range(4, tier ? 120 : 60); bool edges = r.pct(15);
  for (int i = 0; i < n; i++) {
    if (r.pct(3)) { p.add("rep", {style == 0 ? r.range(1, 20) : gsize(r, 80), r.range(10, 400), (i64)r.below(3)}); continue; }
    if (r.pct(4)) { p.add("stall", {r.range(1, 5)}); continue; }
    i64 sz = style == 0 ? r.range(1, 24) : style == 1 ? 16 * r.range(1, 9) : style == 2 ? 4 * r.range(1, 30) : gsize(r, 1500); if (edges && r.pct(10)) sz = 512 * r.range(1, 9) + r.range(-5, 5);
    p.add("pkt", {sz, (i64)r.below(1 << 20), (i64)r.below(3), (i64)r.below(1 << 10), (i64)r.below(1 << 16)});
  }
  if (r.pct(tier ? 3 : 2)) p.add("rep", {r.range(8, 17), r.pct(60) ? 70000 : 3000, 0});
  if (r.pct(4)) p.add("pkt", {r.range(4000, 80000), 5, 0, 3, 3});
  enlarge(r, p, "pkt", 0, 10, 19);
  if (i64 k = rare(701); k >= 0) p.add("huge", {k, (i64)r.below(1 << 16)});
  return p;
}
struct Sess { std::unique_ptr<Ctx> s, r, tw; Bytes key, iv; std::deque<std::pair<Bytes, Bytes>> wire; Bytes acc_pt, acc_ct; u64 blocks = 0; std::unordered_set<u64> win; u64 sent = 0, recvd = 0; };
static void exec_c03(const Plan &p) {
  Lib *l = var_lib(kind_of({"cfb", "ctr", "hc128", "rabbit", "sosemanuk", "chacha"}, p.get("kind")), p.get("var")); int K = l->o->kind;
  Node A, B; A.shared = B.shared = p.get("shared");
  sig(fnv(l->name.data(), l->name.size()));
  int ns = 1 + (int)modn(p.get("nsess") - 1, 3); std::vector<Sess> ss(ns);
  for (int k = 0; k < ns; k++) { Sess &x = ss[k]; x.key = stream_key(l->o, p.get("key") + k, p.get("klen")); x.iv = content(p.get("iv") + 17 * k, l->o->iv_len); if (k) { x.key = related({ss[0].key}, p.get("key") / 7 + k, x.key.size()); x.iv = related({ss[0].iv}, p.get("iv") / 5 + k, x.iv.size()); }
    x.s.reset(new Ctx(l, &A, p.get("res"))); x.r.reset(new Ctx(l, &B, p.get("res") + 1)); x.tw.reset(new Ctx(l, &A, p.get("res") + 2)); x.s->init(x.key, x.iv); x.r->init(x.key, x.iv); x.tw->init(x.key, x.iv); }
  bool twin = K == K_CTR || K == K_RABBIT || K == K_CFB;
  auto flush = [&](Sess &x, u64 seed) {      // the same bytes cut at other multiples of 16
    if (!twin || x.acc_pt.empty()) return;
    Rng r(seed); Bytes got;
    for (size_t at = 0; at < x.acc_pt.size();) { size_t n = seed % 3 == 0 ? x.acc_pt.size() - at : std::min<size_t>(x.acc_pt.size() - at, 16 * (1 + r.below(seed % 3 == 1 ? 2 : 9))); Out o = x.tw->process(sub(x.acc_pt, at, n), 0, copt(seed & 7)); got = cat(got, o.b); at += n; }
    checked(); if (got != x.acc_ct) { size_t at = 0; while (got[at] == x.acc_ct[at]) at++; fail("rechunk", "%s: the same %zu bytes cut differently at multiples of 16 differ at byte %zu", l->name.c_str(), got.size(), at); }
    x.acc_pt.clear(); x.acc_ct.clear();
  };
  auto recv = [&](Sess &x) {
    auto w = x.wire.front(); x.wire.pop_front(); Out o = x.r->process(w.first, 1, copt((i64)(x.recvd % 11)));
    checked(); if (o.st != C_OK || o.b != w.second) fail("out-of-step", "%s: packet %llu (%zu bytes) of a continued session decrypts to %s, sent %s", l->name.c_str(), (unsigned long long)x.recvd, w.second.size(), hex(o.b).c_str(), hex(w.second).c_str());
    x.recvd++;
  };
  auto send = [&](Sess &x, size_t n, u64 seed, i64 res, u64 tseed, size_t lag) {
    Bytes pt = content(seed, n); Out o = x.s->process(pt, 0, copt(res));
    if (o.st != C_OK) fail("crash", "%s: processing raised an exception", l->name.c_str());
    Bytes ks = xorb(pt, o.b);
    if (K == K_CTR) {
      for (size_t k = 0; k < n; k += 16) { uint8_t ex[16]; ref::ctr_block(x.key.data(), x.iv.data(), (uint32_t)(1 + x.blocks++), ex); size_t m = std::min<size_t>(16, n - k);
        if (memcmp(ex, &ks[k], m)) fail("counter", "%s: block %zu of packet %llu does not use counter %llu", l->name.c_str(), k / 16, (unsigned long long)x.sent, (unsigned long long)x.blocks); }
      checked();
    }
    if (K != K_CHACHA && n >= 8) {
      size_t stepw = x.win.size() < 20000 ? 1 : 16;
      for (size_t k = 0; k + 8 <= n; k += stepw) { u64 v; memcpy(&v, &ks[k], 8); if (x.win.size() > 400000) break; if (!x.win.insert(v).second) fail("keystream-reuse", "%s: 8 bytes of keystream at offset %zu of packet %llu were used before in the session", l->name.c_str(), k, (unsigned long long)x.sent); }
      checked();
    }
    if (twin) {
      if (n % 16 == 0) { x.acc_pt = cat(x.acc_pt, pt); x.acc_ct = cat(x.acc_ct, o.b); if (x.acc_pt.size() > 4096) flush(x, tseed); }
      else { flush(x, tseed); Out q = x.tw->process(pt, 0); checked(); if (q.b != o.b) fail("rechunk", "%s: a packet of %zu bytes depends on how the bytes before it were cut", l->name.c_str(), n); }
    }
    x.sent++; x.wire.push_back({o.b, pt}); while (x.wire.size() > lag) recv(x);
  };
  size_t lag = (size_t)modn(p.get("lag"), 64); if (lag) fault(F_DELAY);
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t);
    Sess &x = ss[modn(t.arg(2), ns)];
    if (t.op == "pkt") { size_t n = modn(t.arg(0), 1 << 22); sig(n); send(x, n, t.arg(1), t.arg(3), pos(t.arg(4)), lag); }
    else if (t.op == "rep") { size_t n = modn(t.arg(0), 5000); u64 c = modn(t.arg(1), 1 << 20); sig(mix(n, c)); for (u64 k = 0; k < c; k++) send(x, n, 1000 + k, 0, k, lag); }
    else if (t.op == "huge") {       // a session long enough for the counter's upper bytes (optimised builds of the same sources)
      std::vector<std::string> vs; for (auto v : {"ctr.plain.fast", "ctr.x86fb.fast", "ctr.x86hw.fast"}) if (has_lib(v)) vs.push_back(v);
      if (vs.empty()) continue;
      Lib *f = lib(vs[modn(t.arg(0), vs.size())]); Ctx h(f, &A, 3); Bytes hk = content(t.arg(1), 16), hv = content(t.arg(1) + 1, 12); h.init(hk, hv); Rng r(pos(t.arg(1))); u64 blk = 1; sig(0x48);
      Bytes big = content(t.arg(1) + 2, 1u << 26);
      for (size_t n : {(size_t)1 << 26, (size_t)1 << 26, (size_t)1 << 26, ((size_t)1 << 26) - 160, (size_t)4096}) {
        Bytes pt = n == big.size() ? big : sub(big, 0, n); Out o = h.process(pt, 0, copt(0)); if (o.st != C_OK || o.b.size() != n) fail("crash", "%s: processing raised an exception", f->name.c_str());
        u64 nb = n / 16; auto one = [&](u64 k) { uint8_t ex[16]; ref::ctr_block(hk.data(), hv.data(), (uint32_t)(blk + k), ex); checked(); for (int j = 0; j < 16; j++) if ((ex[j] ^ pt[16 * k + j]) != o.b[16 * k + j]) fail("counter", "%s: block %llu of a long session does not use counter %llu", f->name.c_str(), (unsigned long long)(blk + k - 1), (unsigned long long)(blk + k)); };
        for (u64 k = 0; k < std::min<u64>(nb, 64); k++) { one(k); one(nb - 1 - k); }
        for (int k = 0; k < 500; k++) one(r.below(nb));
        blk += nb;
      }
      fault(F_STALL);
    }
    else if (t.op == "stall") { fault(F_STALL); for (auto &y : ss) while (y.wire.size() > 0) recv(y); simtime(1000 * pos(t.arg(0)) % 100000); }
  }
  for (auto &x : ss) { while (!x.wire.empty()) recv(x); flush(x, p.seed); }
  SH->nontrivial = 1;
}

// ================================================================ C04
static Plan gen_c04(Rng &r, int tier) {
  Plan p; p.cfg["var"] = r.below(2); p.cfg["key"] = r.below(1 << 20); static const int kl[] = {0, 1, 16, 20, 31, 32, 33, 55, 56, 63, 64, 65, 100, 119, 120, 127, 128, 131, 191, 200};
  p.cfg["klen"] = r.pct(80) ? kl[r.below(20)] : r.range(0, 300); p.cfg["shared"] = r.pct(50); p.cfg["res"] = r.below(1000);
  int faultpct = (int)r.range(0, 3) * 15; int n = (int)r.range(4, tier ? 50 : 24); i64 tl = r.pct(50) ? 15 : (i64)r.range(0, 31);
  for (int i = 0; i < n; i++) {
    if (r.pct(20)) tl = r.range(0, 31);
    if (r.pct(6)) { p.add("rekey", {(i64)r.below(3), (i64)r.below(1 << 20), r.pct(80) ? (i64)kl[r.below(20)] : r.range(0, 300), (i64)r.below(100)}); continue; }
    if (faultpct && r.pct(4)) { p.add("restart", {(i64)r.below(2), r.pct(50) ? gen_tick(r) : -1, (i64)r.below(300)}); continue; }
    if (r.pct(8)) { p.add("abandon", {(i64)r.below(2), (i64)r.below(3), gen_tick(r) * 4, (i64)r.range(0, 300)}); continue; }
    if (r.pct(35)) { p.add("forge", {(i64)r.below(10), r.pct(70) ? r.range(1, 200) : gsize(r, 2000), (i64)r.below(1 << 20), tl, (i64)r.below(1 << 16), (i64)r.below(1000)}); continue; }
    std::vector<i64> a = {r.pct(70) ? r.range(1, 200) : gsize(r, 3000), (i64)r.below(1 << 20), tl}; gen_fate(r, a, faultpct); a.push_back(r.below(1 << 10));
    p.add("pkt", a);
  }
  enlarge(r, p, "pkt", 0, 6); enlarge(r, p, "forge", 1, 3);
  if (i64 k = rare(9001); k >= 0) p.add("huge", {hugearg(r, k)});
  soak(r, p); return p;
}
static Bytes ref_hmac(const Bytes &k, const Bytes &m, size_t tl) { uint8_t t[32]; ref::hmac_sha256(k.data(), k.size(), m.data(), m.size(), t); return vb(t, tl); }
static void exec_c04(const Plan &p) {
  Lib *l = var_lib("hmac", p.get("var")); Node N[2]; N[0].shared = N[1].shared = p.get("shared");
  sig(fnv(l->name.data(), l->name.size()));
  std::unique_ptr<Ctx> c[2]; Bytes key[2]; std::vector<Bytes> kh;
  auto load = [&](int w, const Bytes &k, i64 res) { key[w] = k; Out o = c[w]->load_key(k, copt(res)); if (o.st != C_OK) fail("crash", "loading a key of %zu bytes raised an exception", k.size()); };
  for (int w = 0; w < 2; w++) { c[w].reset(new Ctx(l, &N[w], p.get("res") + w)); load(w, content(p.get("key"), modn(p.get("klen"), 2000)), p.get("res")); } kh.push_back(key[0]);
  Net net; std::vector<size_t> tls; Bytes lasttag = content(4, 32), lastmsg;
  auto verify = [&](const Bytes &m, const Bytes &tag, i64 res, const char *what, int id) {
    CallOpt o = copt(res); if (res % 3 == 0) { o.residue = 3; o.echo = tag; }
    Out v = c[1]->validate(tag, m, res & 1, o);
    if (v.st != C_OK) fail("crash", "validation raised an exception");
    bool should = ref_hmac(key[1], m, tag.size()) == tag;
    tr("   verify %s %d: message %zu bytes, tag %zu bytes: %s", what, id, m.size(), tag.size(), v.ret ? "accepted" : "rejected");
    sig(mix(should, v.ret != 0));
    if (m.empty() && should) return false;       // no tag is ever issued for an empty message
    checked();
    if (should && !v.ret) fail("authentic-rejected", "%s: the authentic %zu-byte message with its %zu-byte tag was rejected (key of %zu bytes)", l->name.c_str(), m.size(), tag.size(), key[1].size());
    if (!should && v.ret) fail("forgery-accepted", "%s: a %s of %zu bytes with a wrong %zu-byte tag %s was accepted (right: %s)", l->name.c_str(), what, m.size(), tag.size(), hex(tag).c_str(), hex(ref_hmac(key[1], m, tag.size())).c_str());
    lasttag = tag; lastmsg = m; return v.ret != 0;
  };
  auto deliver = [&](const Msg &m) { size_t tl = tls[m.id]; if (m.data.size() < tl) { checked(); return; } verify(sub(m.data, 0, m.data.size() - tl), sub(m.data, m.data.size() - tl, tl), m.id * 7 + 1, m.intact ? "packet" : "damaged packet", m.id); };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t);
    if (t.op == "huge") {        // past 2^29 bytes the hash's bit count needs its upper word
      if (!has_lib("hmac.fast")) continue; Lib *f = lib("hmac.fast"); size_t n = hugelen((1u << 29) - 64, t.arg(0)); Bytes m = content(t.arg(0), n), k = content(t.arg(0) + 1, 32); Buf tg(32), kb(k), b(m), cs(f->o->ctx_size, 0, 7, f->o->ctx_align); CallOpt co; co.work = n; i64 ok = 0;
      run_on_thread([&] { CUR = nullptr; libcall(co, [&] { f->o->load_key(cs.p, kb.p, 32); f->o->tag(cs.p, tg.p, b.p, n, 32); }); }, (size_t)3 << 29);
      checked(); Bytes ex = ref_hmac(k, m, 32); if (tg.bytes() != ex) fail("wrong-tag", "%s: tag of a %zu-byte message is %s, HMAC-SHA-256 gives %s", f->name.c_str(), n, hex(tg.bytes()).c_str(), hex(ex).c_str());
      fault(F_STALL); continue;
    }
    if (t.op == "soak") { cpu_limit(300);       // many packets, forged ones among them
      u64 count = modn(t.arg(0), 80000); size_t tl = 4 + pos(t.arg(1)) % 29; i64 z = (i64)modn(t.arg(2), 4); fault(F_STALL);
      for (u64 q = 0; q < count; q++) {
        Bytes m = content(t.arg(1) + (i64)q * 16 + 5, 1 + (q * 3 + pos(t.arg(1))) % 50), g = ref_hmac(key[0], m, tl); simtime(200);
        if (z != 1) { Out o = c[0]->tag(m, (int)tl, copt((i64)(q % 3))); checked(); if (o.st != C_OK || o.b != g) fail("wrong-tag", "%s: tag %llu of many (%zu-byte message) is %s, HMAC-SHA-256 gives %s", l->name.c_str(), (unsigned long long)q, m.size(), hex(o.b).c_str(), hex(g).c_str()); }
        if (z == 0) continue;
        g = ref_hmac(key[1], m, tl); if (z == 2 || q % 2) g[q / 2 % tl] ^= 1 << q % 8;
        verify(m, g, (i64)(q % 7), "packet", (int)q);
      }
      continue;
    }
    if (t.op == "pkt") {
      size_t n = modn(t.arg(0), 12 << 20), tl = 1 + modn(t.arg(2), 32); Bytes m = content(t.arg(1), n);
      Out o = c[0]->tag(m, (int)tl, copt(t.arg(7))); if (o.st != C_OK) fail("crash", "tag generation raised an exception");
      checked(); if (n && o.b != ref_hmac(key[0], m, tl)) fail("wrong-tag", "%s: tag of a %zu-byte message under a %zu-byte key is %s, HMAC-SHA-256 gives %s", l->name.c_str(), n, key[0].size(), hex(o.b).c_str(), hex(ref_hmac(key[0], m, tl)).c_str());
      Msg q; q.id = (int)tls.size(); q.data = cat(o.held(0, m), o.b); q.intact = true; tls.push_back(tl); net.send(i, q, t.arg(3), t.arg(4), t.arg(5), t.arg(6));
    } else if (t.op == "forge") {
      fault(F_FORGE); size_t n = modn(t.arg(1), 5000000), tl = 1 + modn(t.arg(3), 32); Bytes m = content(t.arg(2), n); Bytes good = ref_hmac(key[1], m, tl), tag = good; Rng r(t.arg(4));
      switch (modn(t.arg(0), 10)) {
        case 0: tag = content(t.arg(4), tl); break;
        case 1: tag[r.below(tl)] ^= 1 << r.below(8); break;
        case 2: { size_t k = r.below(tl); for (size_t j = k; j < tl; j++) tag[j] ^= 1 + r.below(255); break; }
        case 3: tag = lasttag; tag.resize(tl); break;
        case 4: m.clear(); tag = lasttag; tag.resize(tl); break;
        case 5: if (n) { if (r.pct(50)) m.pop_back(); else m.push_back((uint8_t)r.next()); } break;
        case 6: tag = ref_hmac(content(t.arg(4), 64), m, tl); break;
        case 7: tag.assign(tl, 0); break;
        case 8: case 9: { // agree up to and including a zero byte of the right tag, differ after it
          for (u64 k = 0; k < 4000 && k * n < 50000000; k++) { m = content(1000003 + 16 * k + r.below(1 << 20) * 16 + 5, n ? n : 1); good = ref_hmac(key[1], m, tl); size_t z = std::find(good.begin(), good.end(), 0) - good.begin(); if (z + 1 < tl) { tag = good; tag[z + 1 + r.below(tl - z - 1)] ^= 0x40; break; } tag = good; tag[tl - 1] ^= 1; } break; }
      }
      verify(m, tag, t.arg(5), "forged message", (int)i);
    } else if (t.op == "rekey") { fault(F_REKEY); i64 w = (i64)modn(t.arg(0), 3); bool same = modn(t.arg(1), 5) == 0; Bytes k = related(kh, t.arg(1), modn(t.arg(2), 4000)); kh.push_back(k); if (w != 1) load(0, same ? Bytes(key[0]) : k, t.arg(3)); if (w != 0) load(1, same ? Bytes(key[1]) : k, t.arg(3)); }
    else if (t.op == "restart") {
      int w = (int)modn(t.arg(0), 2); if (t.arg(1) >= 0) { fault(F_CRASH); c[w]->tag(content(t.arg(2), 1 + modn(t.arg(2), 500)), 16, copt(3, t.arg(1))); }
      fault(F_RESTART); N[w].restart(); c[w]->fresh(t.arg(2)); load(w, key[w], t.arg(2));
    } else if (t.op == "abandon") {
      fault(F_ABANDON); int w = (int)modn(t.arg(0), 2); CallOpt o = copt(t.arg(3), (i64)pos(t.arg(2))); Bytes m = content(t.arg(3), 1 + modn(t.arg(3), 1000));
      i64 op = (i64)modn(t.arg(1), 3);
      if (op == 0) c[w]->tag(m, 16, o); else if (op == 1) c[w]->validate(content(5, 16), m, false, o); else { Out q = c[w]->load_key(key[w], o); if (q.st != C_OK) load(w, key[w], 5); }
    }
    for (auto &m : net.due(i)) deliver(m);
  }
  for (auto &m : net.drain()) deliver(m);
  { Bytes m = content(p.seed * 16 + 5, 40); Bytes g = ref_hmac(key[1], m, 16); verify(m, g, 5, "packet", -1); }   // faults over: the next authentic packet is accepted
}

// ================================================================ C05
static Plan gen_c05(Rng &r, int tier) {
  Plan p; p.cfg["var"] = pick_var(r, 4); p.cfg["key"] = r.below(1 << 20); p.cfg["shared"] = r.pct(50); p.cfg["res"] = r.below(1000);
  int faultpct = (int)r.range(0, 3) * 15; int n = (int)r.range(3, tier ? 50 : 24); int style = (int)r.below(3);
  auto len = [&]() -> i64 { return style == 0 ? r.range(0, 20) : style == 1 ? r.range(0, 70) : gsize(r, 900); };
  for (int i = 0; i < n; i++) {
    if (r.pct(6)) { p.add("rekey", {(i64)r.below(3), (i64)r.below(1 << 20)}); continue; }
    if (faultpct && r.pct(4)) { p.add("restart", {(i64)r.below(2), r.pct(50) ? gen_tick(r) : -1, (i64)r.below(300)}); continue; }
    if (r.pct(8)) { p.add("abandon", {(i64)r.below(2), (i64)r.below(3), gen_tick(r) * 4, (i64)r.range(0, 300)}); continue; }
    std::vector<i64> a = {len(), len(), r.pct(20) ? (i64)r.below(5) : (i64)r.below(1 << 20)}; i64 f = r.pct(faultpct + 20) ? r.range(1, 16) : 0; a.push_back(f); a.push_back(r.below(1 << 16)); a.push_back(r.below(1 << 16)); a.push_back(r.pct(faultpct) ? r.range(1, 6) : 0); a.push_back(r.below(1 << 10));
    p.add("pkt", a);
  }
  enlarge(r, p, "pkt", 0, 6); enlarge(r, p, "pkt", 1, 6);
  if (i64 k = rare(7001); k >= 0) p.add("huge", {k, (i64)(r.below(1 << 15) * 2 + k / 3 % 2)});
  soak(r, p); return p;
}
static void exec_c05(const Plan &p) {
  Lib *l = var_lib("aegis", p.get("var")); Node N[2]; N[0].shared = N[1].shared = p.get("shared");
  sig(fnv(l->name.data(), l->name.size()));
  std::unique_ptr<Ctx> c[2]; Bytes key[2]; std::vector<Bytes> kh;
  auto load = [&](int w, const Bytes &k, i64 res) { key[w] = k; c[w]->load_key(k, copt(res)); };
  for (int w = 0; w < 2; w++) { c[w].reset(new Ctx(l, &N[w], p.get("res") + w)); load(w, content(p.get("key"), 16), p.get("res")); } kh.push_back(key[0]);
  struct Pk { Bytes key, iv, ad, ct, tag, pt; bool operator==(const Pk &o) const { return key == o.key && iv == o.iv && ad == o.ad && ct == o.ct && tag == o.tag; } };
  std::vector<Pk> sent; struct Fl { i64 due; u64 ord; Pk k; int id; bool alt; }; std::vector<Fl> fl; u64 ord = 0, lastord = 0;
  auto deliver = [&](Fl &f) {
    const Pk &k = f.k; Out o = c[1]->open(k.ct, k.tag, k.ad, k.iv, copt(f.id * 5 + 1));
    if (o.st != C_OK) fail("crash", "opening raised an exception");
    int au = -1; Pk probe = k; probe.key = key[1]; for (size_t j = 0; j < sent.size(); j++) if (sent[j] == probe) au = (int)j;
    tr("   open packet %d (ad %zu, ct %zu, %s): %s", f.id, k.ad.size(), k.ct.size(), au >= 0 ? "authentic" : "altered", o.ret ? "accepted" : "rejected");
    sig(mix(au >= 0, o.ret != 0)); checked();
    if (au >= 0 && !o.ret) fail("authentic-rejected", "%s: packet %d as sealed (ad %zu, msg %zu bytes) was rejected", l->name.c_str(), f.id, k.ad.size(), k.ct.size());
    if (au >= 0 && o.b != sent[au].pt) fail("wrong-plaintext", "%s: packet %d (ad %zu, msg %zu bytes) opens to %s, sealed %s", l->name.c_str(), f.id, k.ad.size(), k.ct.size(), hex(o.b).c_str(), hex(sent[au].pt).c_str());
    if (au < 0 && o.ret) fail("forgery-accepted", "%s: altered packet %d (ad %zu, ct %zu bytes) was accepted", l->name.c_str(), f.id, k.ad.size(), k.ct.size());
    if (au < 0) for (size_t j = 0; j < o.b.size(); j++) if (o.b[j]) fail("plaintext-released", "%s: byte %zu of %zu in the plaintext buffer of rejected packet %d is %02x", l->name.c_str(), j, o.b.size(), f.id, o.b[j]);
  };
  auto due = [&](i64 now) {
    std::vector<Fl> out, keep; for (auto &f : fl) (f.due <= now ? out : keep).push_back(f); fl.swap(keep);
    std::stable_sort(out.begin(), out.end(), [](const Fl &a, const Fl &b) { return a.due != b.due ? a.due < b.due : a.ord < b.ord; });
    for (auto &f : out) { if (f.ord < lastord) fault(F_REORDER); lastord = std::max(lastord, f.ord); simtime(500); deliver(f); }
  };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t);
    if (t.op == "huge") {        // past 2^29 bytes the length fields need their upper words
      std::vector<std::string> vs; for (auto v : {"aegis.plain.fast", "aegis.x86fb.fast", "aegis.x86hw.fast"}) if (has_lib(v)) vs.push_back(v); if (vs.empty()) continue;
      Lib *f = lib(vs[modn(t.arg(0), vs.size())]); Rng r(pos(t.arg(1))); size_t big = (1u << 29) + r.below(40), small = r.below(40); bool adbig = t.arg(1) & 1; size_t an = adbig ? big : small, mn = adbig ? small : big;
      Bytes k = content(t.arg(1), 16), v = content(t.arg(1) + 1, 16), ad = content(t.arg(1) + 2, an), m = content(t.arg(1) + 3, mn); Buf kb(k), vb2(v), ab(ad), mb(m), cb(mn), tb(16), cs(f->o->ctx_size, 0, 7, f->o->ctx_align); CallOpt co; co.work = big; i64 ok = 0;
      libcall(co, [&] { f->o->load_key(cs.p, kb.p, 16); f->o->seal(cs.p, cb.p, tb.p, mb.p, ab.p, vb2.p, an, mn); });
      Bytes ex(mn); uint8_t et[16]; ref::aegis128(k.data(), v.data(), ad.data(), an, m.data(), mn, ex.data(), et); checked();
      if (memcmp(et, tb.p, 16) || memcmp(ex.data(), cb.p, mn)) fail("not-published", "%s: sealed packet (ad %zu, msg %zu bytes) is not AEGIS-128: tag %s, expected %s", f->name.c_str(), an, mn, hex(tb.p, 16).c_str(), hex(et, 16).c_str());
      libcall(co, [&] { ok = f->o->open(cs.p, mb.p, cb.p, ab.p, vb2.p, tb.p, an, mn); }); checked(); if (!ok || memcmp(mb.p, m.data(), mn)) fail("authentic-rejected", "%s: packet as sealed (ad %zu, msg %zu bytes) was rejected", f->name.c_str(), an, mn);
      fault(F_STALL); continue;
    }
    if (t.op == "soak") { cpu_limit(300);       // many packets, altered ones among them
      u64 n = modn(t.arg(0), 80000); i64 z = (i64)modn(t.arg(2), 4); fault(F_STALL);
      for (u64 q = 0; q < n; q++) {
        Bytes m = content(t.arg(1) + (i64)(q % 3000) * 16 + 5, (q * 3 + pos(t.arg(1))) % 40), ad = content(t.arg(1) + 7, q % 5 * 4), iv = content((i64)q * 16 + 5, 16), ex(m.size() + 16); int s = z == 0 ? 0 : z == 1 ? 1 : (int)(q & 1); simtime(200);
        ref::aegis128(key[s].data(), iv.data(), ad.data(), ad.size(), m.data(), m.size(), ex.data(), ex.data() + m.size());
        if (s == 0) { Out o = c[0]->seal(m, ad, iv, copt((i64)(q % 3))); checked(); if (o.st != C_OK || o.b != ex) fail("not-published", "%s: packet %llu of many (ad %zu, msg %zu bytes) is not AEGIS-128: %s, expected %s", l->name.c_str(), (unsigned long long)q, ad.size(), m.size(), hex(o.b).c_str(), hex(ex).c_str()); continue; }
        bool bad = z == 3 || (q & 2); Bytes ct = sub(ex, 0, m.size()), tag = sub(ex, m.size(), 16); if (bad) { fault(F_FORGE); if (q % 3 == 0 && !ct.empty()) ct[q % ct.size()] ^= 4; else tag[q / 2 % 16] ^= 1 << q % 8; }
        Out o = c[1]->open(ct, tag, ad, iv, copt((i64)(q % 3))); checked(); if (o.st != C_OK) fail("crash", "opening raised an exception");
        if (bad && o.ret) fail("forgery-accepted", "%s: altered packet %llu of many (ad %zu, ct %zu bytes) was accepted", l->name.c_str(), (unsigned long long)q, ad.size(), ct.size());
        if (bad) { for (auto b : o.b) if (b) fail("plaintext-released", "%s: rejected packet %llu of many left bytes in the plaintext buffer", l->name.c_str(), (unsigned long long)q); }
        else { if (!o.ret) fail("authentic-rejected", "%s: packet %llu of many (ad %zu, msg %zu bytes) was rejected", l->name.c_str(), (unsigned long long)q, ad.size(), m.size()); if (o.b != m) fail("wrong-plaintext", "%s: packet %llu of many opens to %s, sealed %s", l->name.c_str(), (unsigned long long)q, hex(o.b).c_str(), hex(m).c_str()); }
      }
      continue;
    }
    if (t.op == "pkt") {
      Pk k; k.key = key[0]; k.ad = content(t.arg(2) + 1, modn(t.arg(0), 5000000)); k.pt = content(t.arg(2), modn(t.arg(1), 5000000)); k.iv = content(t.arg(2) * 3 + 1, 16);
      Out o = c[0]->seal(k.pt, k.ad, k.iv, copt(t.arg(7))); if (o.st != C_OK) fail("crash", "sealing raised an exception");
      k.ct = sub(o.b, 0, k.pt.size()); k.tag = sub(o.b, k.pt.size(), 16); Pk was = k;
      Bytes ex(k.pt.size() + 16); ref::aegis128(key[0].data(), k.iv.data(), k.ad.data(), k.ad.size(), k.pt.data(), k.pt.size(), ex.data(), ex.data() + k.pt.size());
      checked(); if (o.b != ex) fail("not-published", "%s: sealed packet (ad %zu, msg %zu bytes) is not AEGIS-128: %s, expected %s", l->name.c_str(), k.ad.size(), k.pt.size(), hex(o.b).c_str(), hex(ex).c_str());
      k.ad = o.held(1, was.ad); k.iv = o.held(2, was.iv); int id = (int)sent.size(); sent.push_back(k); Rng r(pos(t.arg(4)) * 65536 + pos(t.arg(5))); i64 d = (i64)modn(t.arg(6), 64); i64 f = (i64)modn(t.arg(3), 17); sig(f);
      Fl x{(i64)i + d, ord++, k, id, false}; if (d) fault(F_DELAY);
      auto flip = [&](Bytes &b) { if (!b.empty()) { b[r.below(b.size())] ^= 1 << r.below(8); fault(F_CORRUPT); } };
      switch (f) {
        case 1: fault(F_DROP); continue;
        case 2: fault(F_DUP); fl.push_back(x); x.due += r.below(5); break;
        case 3: flip(x.k.ct); break;
        case 4: flip(x.k.tag); break;
        case 5: flip(x.k.ad); break;
        case 6: flip(x.k.iv); break;
        case 7: if (!x.k.ct.empty()) { x.k.ct.resize(r.below(x.k.ct.size())); fault(F_TRUNC); } break;
        case 8: x.k.ct = cat(x.k.ct, Bytes(1 + r.below(17), r.pct(50) ? 0 : (uint8_t)r.next())); fault(F_EXTEND); break;
        case 9: { size_t pad = (16 - x.k.ad.size() % 16) % 16; x.k.ad = cat(x.k.ad, Bytes(r.pct(70) && pad ? pad : 1 + r.below(16), 0)); fault(F_EXTEND); break; }
        case 10: { while (!x.k.ad.empty() && x.k.ad.back() == 0) x.k.ad.pop_back(); if (!x.k.ad.empty()) x.k.ad.pop_back(); fault(F_TRUNC); break; }
        case 11: { Bytes all = cat(x.k.ad, x.k.ct); size_t at = r.below(all.size() + 1); x.k.ad = sub(all, 0, at); x.k.ct = sub(all, at, all.size()); fault(F_SPLICE); break; }
        case 12: if (id) { const Pk &o2 = sent[r.below(id)]; switch (r.below(4)) { case 0: x.k.tag = o2.tag; break; case 1: x.k.ct = o2.ct; break; case 2: x.k.iv = o2.iv; break; default: x.k.ad = o2.ad; } fault(F_SPLICE); } break;
        case 13: { Fl y = x; y.k = sent[r.below(sent.size())]; fl.push_back(x); x = y; x.due += r.below(4); fault(F_REPLAY); break; }
        case 14: x.k.tag.assign(16, r.pct(50) ? 0 : 0xff); fault(F_FORGE); break;
        case 15: { u64 nb = r.below(16); for (u64 j = nb; j < 16; j++) x.k.tag[j] ^= 1 + r.below(255); fault(F_FORGE); break; }
        case 16: { size_t w = r.below(4), v = r.below(4); uint32_t e = (uint32_t)r.next() | 1; for (size_t q : {w, v}) for (int j = 0; j < 4; j++) x.k.tag[4 * q + j] ^= e >> (8 * j); if (w == v) x.k.tag[4 * w] ^= 1; fault(F_FORGE); break; }   // the same error in two words
      }
      fl.push_back(x);
    } else if (t.op == "rekey") { fault(F_REKEY); i64 w = (i64)modn(t.arg(0), 3); bool same = modn(t.arg(1), 5) == 0; Bytes k = related(kh, t.arg(1), 16); kh.push_back(k); if (w != 1) load(0, same ? Bytes(key[0]) : k, 3); if (w != 0) load(1, same ? Bytes(key[1]) : k, 4); }
    else if (t.op == "restart") {
      int w = (int)modn(t.arg(0), 2); if (t.arg(1) >= 0) { fault(F_CRASH); c[w]->seal(content(t.arg(2), modn(t.arg(2), 300)), content(5, 7), content(6, 16), copt(3, t.arg(1))); }
      fault(F_RESTART); N[w].restart(); c[w]->fresh(t.arg(2)); load(w, key[w], t.arg(2));
    } else if (t.op == "abandon") {
      fault(F_ABANDON); int w = (int)modn(t.arg(0), 2); CallOpt o = copt(t.arg(3), (i64)pos(t.arg(2))); i64 op = (i64)modn(t.arg(1), 3); Bytes m = content(t.arg(3), modn(t.arg(3), 500));
      if (op == 0) c[w]->seal(m, content(3, 20), content(6, 16), o); else if (op == 1) c[w]->open(m, content(5, 16), content(3, 20), content(6, 16), o); else { Out q = c[w]->load_key(key[w], o); if (q.st != C_OK) load(w, key[w], 5); }
    }
    due(i);
  }
  due(INT64_MAX);
}

// ================================================================ C17: a fleet of differently built nodes
static Plan gen_c17(Rng &r, int tier) {
  Plan p; p.cfg["kind"] = r.below(3); p.cfg["key"] = r.below(1 << 20); p.cfg["iv"] = r.below(1 << 20); p.cfg["res"] = r.below(1000);
  int faultpct = (int)r.range(0, 3) * 15; int n = (int)r.range(4, tier ? 50 : 24); int style = (int)r.below(3);
  for (int i = 0; i < n; i++) {
    if (faultpct && r.pct(4)) { p.add("restart", {(i64)r.below(2), (i64)r.below(5), (i64)r.below(1 << 16)}); continue; }
    if (r.pct(4)) { p.add("rekey", {(i64)r.below(1 << 20), (i64)r.below(1 << 20)}); continue; }
    if (r.pct(15)) { p.add("migrate", {(i64)r.below(2), (i64)r.below(5)}); continue; }
    i64 sz = style == 0 ? r.range(0, 33) : gsize(r, 700);
    std::vector<i64> a = {sz, (i64)r.below(1 << 20), style == 0 ? r.range(0, 33) : gsize(r, 200)}; gen_fate(r, a, faultpct, r.pct(50)); p.add("pkt", a);
  }
  enlarge(r, p, "pkt", 0, 6, 19); if (p.get("kind") % 3 == 2) enlarge(r, p, "pkt", 2, 12, 18); soak(r, p);
  return p;
}
static void exec_c17(const Plan &p) {
  std::string kind = kind_of({"cfb", "ctr", "aegis"}, p.get("kind")); std::vector<Lib *> ls; for (auto &v : variants(kind)) if (v != "cfb.rr") ls.push_back(lib(v));
  size_t V = ls.size(); std::vector<Node> NS(V), NR(V); std::vector<std::unique_ptr<Ctx>> S(V), R(V);
  Bytes key = content(p.get("key"), 16), iv = content(p.get("iv"), 16); std::vector<Bytes> kh = {key}, ih = {iv}; size_t ivl = ls[0]->o->iv_len; int K = ls[0]->o->kind; sig(K);
  auto start = [&](Ctx &c) { if (K == K_AEGIS) c.load_key(key); else c.init(key, sub(iv, 0, ivl)); };
  for (size_t v = 0; v < V; v++) { S[v].reset(new Ctx(ls[v], &NS[v], p.get("res") + v)); R[v].reset(new Ctx(ls[v], &NR[v], p.get("res") + v + 9)); start(*S[v]); start(*R[v]); }
  size_t sa = 0, ra = V - 1; Net net; std::vector<Bytes> ivs, ads, pts;
  auto deliver = [&](const Msg &m) {
    std::vector<Out> o(V); bool whole = m.data.size() >= 16;
    for (size_t v = 0; v < V; v++) {
      if (K == K_AEGIS) { if (whole) o[v] = R[v]->open(sub(m.data, 0, m.data.size() - 16), sub(m.data, m.data.size() - 16, 16), ads[m.id], ivs[m.id], copt((i64)v)); }
      else o[v] = R[v]->process(m.data, 1, copt((i64)v));
      if (v && (o[v].b != o[0].b || (o[v].ret != 0) != (o[0].ret != 0))) { checked(); fail("receivers-differ", "%s and %s receive packet %d (%zu bytes, %s) differently: %s / %s", ls[0]->name.c_str(), ls[v]->name.c_str(), m.id, m.data.size(), m.intact ? "intact" : "damaged", hex(o[0].b).c_str(), hex(o[v].b).c_str()); }
    }
    checked(V); SH->sig = mix(SH->sig, fnv(o[ra].b.data(), o[ra].b.size()));
    if (K == K_AEGIS && m.intact && ivs[m.id].size() && !ivs[m.id].empty() && o[ra].st == C_OK) { }
  };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t);
    if (t.op == "pkt") {
      Bytes pt = content(t.arg(1), modn(t.arg(0), 5000000)), ad = content(t.arg(1) + 5, modn(t.arg(2), 1 << 20)), piv = content(t.arg(1) * 7 + 3, 16); std::vector<Out> o(V);
      for (size_t v = 0; v < V; v++) {
        o[v] = K == K_AEGIS ? S[v]->seal(pt, ad, piv, copt((i64)v + 1)) : S[v]->process(pt, 0, copt((i64)v + 1));
        if (v && o[v].b != o[0].b) fail("senders-differ", "%s and %s put different bytes on the wire for the same %zu-byte packet: %s / %s", ls[0]->name.c_str(), ls[v]->name.c_str(), pt.size(), hex(o[0].b).c_str(), hex(o[v].b).c_str());
      }
      checked(V); Msg m; m.id = (int)pts.size(); m.data = o[sa].b; m.intact = true; pts.push_back(pt); ads.push_back(ad); ivs.push_back(piv); SH->sig = mix(SH->sig, fnv(m.data.data(), m.data.size()));
      net.send(i, m, t.arg(3), t.arg(4), t.arg(5), t.arg(6));
    } else if (t.op == "soak") { cpu_limit(300);
      u64 n = std::min<u64>(modn(t.arg(0), 80000), K == K_AEGIS ? 20000 : 80000); size_t sz = 1 + pos(t.arg(1)) % 33; bool rx = t.arg(2) & 1; fault(F_STALL);
      for (u64 q = 0; q < n; q++) {
        Bytes pt = content(t.arg(1) + (i64)(q % 999), t.arg(2) & 2 ? sz : 1 + q % 33), piv = content((i64)q * 16 + 5, 16); Out a; simtime(100);
        for (size_t v = 0; v < V; v++) { Out o = K == K_AEGIS ? S[v]->seal(pt, sub(piv, 0, q % 16), piv, copt((i64)v + 1)) : (rx ? R : S)[v]->process(pt, rx, copt((i64)v + 1)); if (!v) a = o; else if (o.b != a.b) fail("senders-differ", "%s and %s treat packet %llu of many (%zu bytes) differently: %s / %s", ls[0]->name.c_str(), ls[v]->name.c_str(), (unsigned long long)q, pt.size(), hex(a.b).c_str(), hex(o.b).c_str()); }
        if (q % 64 == 0) SH->sig = mix(SH->sig, fnv(a.b.data(), a.b.size()));
      }
      checked(n);
    } else if (t.op == "restart") { fault(F_RESTART); auto &c = modn(t.arg(0), 2) ? R : S; auto &n = modn(t.arg(0), 2) ? NR : NS; for (size_t v = 0; v < V; v++) { n[v].restart(); c[v]->fresh(t.arg(2)); start(*c[v]); } }
    else if (t.op == "rekey") { fault(F_REKEY); key = related(kh, t.arg(0), 16); iv = related(ih, t.arg(1), 16); kh.push_back(key); ih.push_back(iv); for (size_t v = 0; v < V; v++) { start(*S[v]); start(*R[v]); } }
    else if (t.op == "migrate") { fault(F_MIGRATE); (modn(t.arg(0), 2) ? ra : sa) = modn(t.arg(1), V); }
    for (auto &m : net.due(i)) deliver(m);
  }
  for (auto &m : net.drain()) deliver(m);
}

// ================================================================ C18: DES links
static Plan gen_c18(Rng &r, int tier) {
  Plan p; p.cfg["key"] = r.below(1 << 20); p.cfg["shared"] = r.pct(50); p.cfg["res"] = r.below(1000);
  int n = (int)r.range(3, tier ? 40 : 18);
  for (int i = 0; i < n; i++) {
    if (r.pct(10)) { p.add("rekey", {(i64)r.below(1 << 20)}); continue; }
    if (r.pct(6)) { p.add("restart", {(i64)r.below(2), r.pct(50) ? gen_tick(r) : -1, (i64)r.below(100)}); continue; }
    if (r.pct(8)) { p.add("abandon", {(i64)r.below(2), (i64)r.below(3), gen_tick(r), (i64)r.below(100)}); continue; }
    if (r.pct(40)) p.add("ctr", {r.pct(2) ? 70000 : r.pct(10) ? r.range(200, 600) : r.range(0, 24), (i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(8), (i64)r.below(1 << 10)});
    else p.add("ecb", {r.pct(2) ? r.range(200, 9000) : r.range(0, r.pct(20) ? 200 : 20), (i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.range(0, 60), (i64)r.below(1 << 10)});
  }
  soak(r, p); return p;
}
static u64 w2be(const uint8_t *b) { uint32_t x, y; memcpy(&x, b, 4); memcpy(&y, b + 4, 4); return (u64)x << 32 | y; }
static void be2w(u64 v, uint8_t *b) { uint32_t x = v >> 32, y = (uint32_t)v; memcpy(b, &x, 4); memcpy(b + 4, &y, 4); }
static void exec_c18(const Plan &p) {
  Lib *l = lib("des"); Node N[2]; N[0].shared = N[1].shared = p.get("shared"); std::unique_ptr<Ctx> e[2], d[2]; Bytes key = content(p.get("key"), 8); std::vector<Bytes> kh = {key}, nh;
  for (int w = 0; w < 2; w++) { e[w].reset(new Ctx(l, &N[w], p.get("res") + w)); d[w].reset(new Ctx(l, &N[w], p.get("res") + 5 + w)); d[w]->ring = e[w]->ring; }
  auto load = [&](int w, i64 res) { e[w]->des_key(key, false, copt(res)); d[w]->des_key(key, true, copt(res)); };
  load(0, 1); load(1, 2);
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t);
    if (t.op == "rekey") { fault(F_REKEY); key = related(kh, t.arg(0), 8); kh.push_back(key); load(0, 3); load(1, 4); }
    else if (t.op == "restart") { int w = (int)modn(t.arg(0), 2); if (t.arg(1) >= 0) { fault(F_CRASH); e[w]->des_ecb(content(4, 80), copt(3, t.arg(1))); } fault(F_RESTART); N[w].restart(); e[w]->fresh(t.arg(2)); d[w]->fresh(t.arg(2)); load(w, t.arg(2)); }
    else if (t.op == "abandon") { fault(F_ABANDON); int w = (int)modn(t.arg(0), 2); CallOpt o = copt(t.arg(3), (i64)pos(t.arg(2))); i64 op = (i64)modn(t.arg(1), 3); if (op == 0) e[w]->des_ecb(content(4, 160), o); else if (op == 1) d[w]->des_ctr(content(4, 160), content(5, 12), o); else { e[w]->des_key(key, false, o); load(w, 4); } }
    else if (t.op == "ecb") {
      u64 nb = modn(t.arg(0), 1 << 16); Bytes pt = content(t.arg(1), nb * 8); Rng r(pos(t.arg(2)));
      // sender: in one packet or several
      Bytes ct; for (u64 at = 0; at < nb;) { u64 k = r.pct(40) ? nb - at : 1 + r.below(nb - at); Out o = e[0]->des_ecb(sub(pt, at * 8, k * 8), copt(t.arg(4))); ct.insert(ct.end(), o.b.begin(), o.b.end()); at += k; }
      std::vector<std::pair<u64, Bytes>> wire; std::vector<bool> hurt(nb + 1);
      u64 kb = w2be(key.data());
      for (u64 b = 0; b < nb; b++) { uint8_t ex[8]; be2w(ref::des_block(kb, w2be(&pt[8 * b]), false), ex); checked(); if (memcmp(ex, &ct[8 * b], 8)) fail("not-des", "block %llu encrypts to %s, DES gives %s", (unsigned long long)b, hex(&ct[8 * b], 8).c_str(), hex(ex, 8).c_str()); }
      i64 fp = (i64)modn(t.arg(3), 100);
      for (u64 b = 0; b < nb; b++) { Bytes q = sub(ct, 8 * b, 8); if (r.pct((int)fp)) { switch (r.below(4)) { case 0: fault(F_DROP); continue; case 1: fault(F_DUP); wire.push_back({b, q}); break; case 2: fault(F_CORRUPT); q[r.below(8)] ^= 1 << r.below(8); wire.push_back({nb, q}); continue; default: fault(F_REORDER); wire.insert(wire.begin() + r.below(wire.size() + 1), {b, q}); continue; } } wire.push_back({b, q}); }
      for (size_t at = 0; at < wire.size();) {
        size_t k = r.pct(40) ? wire.size() - at : 1 + r.below(wire.size() - at); Bytes in; for (size_t j = at; j < at + k; j++) in.insert(in.end(), wire[j].second.begin(), wire[j].second.end());
        Out o = d[1]->des_ecb(in, copt(t.arg(4) + 1)); simtime(200); if (o.st != C_OK) fail("crash", "exception");
        for (size_t j = 0; j < k; j++) if (wire[at + j].first < nb) { checked(); if (memcmp(&o.b[8 * j], &pt[8 * wire[at + j].first], 8)) fail("wrong-block", "intact block %llu decrypts to %s, sent %s", (unsigned long long)wire[at + j].first, hex(&o.b[8 * j], 8).c_str(), hex(&pt[8 * wire[at + j].first], 8).c_str()); }
        at += k;
      }
      sig(mix(nb, wire.size()));
    } else if (t.op == "ctr") {
      u64 nb = modn(t.arg(0), 1 << 18); Bytes pt = content(t.arg(1), nb * 8), nonce = t.arg(3) & 4 ? related(nh, t.arg(2), 12) : content(t.arg(2), 12);
      if (t.arg(3) & 1) { uint32_t v = 0xffffffffu - (uint32_t)modn(t.arg(2), 20); memcpy(&nonce[4], &v, 4); } if (t.arg(3) & 2) { uint32_t v = 0xffffffffu - (uint32_t)modn(t.arg(2), 20); memcpy(&nonce[0], &v, 4); }
      nh.push_back(nonce); Out o = e[0]->des_ctr(pt, nonce, copt(t.arg(4))); if (o.mod.count(1) && t.arg(4) & 4) nonce = o.mod[1];      // both ends read the nonce from the same memory
      if (o.st != C_OK) fail("crash", "exception");
      Out q = e[1]->des_ctr(o.b, nonce, copt(t.arg(4) + 1)); checked(); simtime(200);
      if (q.b != pt) fail("wrong-plaintext", "the peer with the same nonce does not recover a CTR message of %llu blocks", (unsigned long long)nb);
      Bytes ks = xorb(pt, o.b); std::unordered_set<u64> seen; u64 kb = w2be(key.data());
      for (u64 b = 0; b < nb; b++) { u64 v = w2be(&ks[8 * b]); checked(); if (!seen.insert(v).second) fail("keystream-reuse", "keystream block %llu of a CTR message repeats an earlier one", (unsigned long long)b); }
      (void)kb; sig(nb);
    } else if (t.op == "soak") { cpu_limit(300); u64 n = modn(t.arg(0), 80000), kb = w2be(key.data()); bool ctr = t.arg(2) & 1; fault(F_STALL);
      for (u64 q = 0; q < n; q++) {
        Bytes m = content(t.arg(1) + (i64)q * 16 + 5, 8 * (1 + q % 5)); simtime(50);
        if (ctr) { Bytes v = content(t.arg(1) * 3 + (i64)(q % 999) * 16 + 5, 12); Out o = e[0]->des_ctr(m, v, copt((i64)(q % 3))), x = e[1]->des_ctr(o.b, v, copt(2)); if (x.b != m) fail("wrong-plaintext", "the peer with the same nonce does not recover CTR message %llu of many", (unsigned long long)q); }
        else { Out o = e[0]->des_ecb(m, copt((i64)(q % 3))), x = d[1]->des_ecb(o.b, copt(2)); for (size_t b = 0; b < m.size(); b += 8) { uint8_t ex[8]; be2w(ref::des_block(kb, w2be(&m[b]), false), ex); if (memcmp(ex, &o.b[b], 8)) fail("not-des", "message %llu of many: a block encrypts to %s, DES gives %s", (unsigned long long)q, hex(&o.b[b], 8).c_str(), hex(ex, 8).c_str()); } if (x.b != m) fail("wrong-block", "message %llu of many is decrypted to other blocks than were sent", (unsigned long long)q); }
      }
      checked(n);
    }
  }
  SH->nontrivial = 1;
}
extern const Scenario net_scenarios[] = {{"C01", gen_c01, exec_c01}, {"C02", gen_c02, exec_c02}, {"C03", gen_c03, exec_c03}, {"C04", gen_c04, exec_c04}, {"C05", gen_c05, exec_c05}, {"C17", gen_c17, exec_c17}, {"C18", gen_c18, exec_c18}, {0, 0, 0}};
