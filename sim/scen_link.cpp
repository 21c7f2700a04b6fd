// C22: whole nodes. Two nodes, each one process with every component it uses, run a
// link in both directions as the authenticated-encryption example composes it:
// AES-CFB without IVs, or a cipher keyed with an IV per packet, then HMAC over all of
// it; or AEGIS. Each end has builds of its own. What the application does - check
// first, drop what is rejected, keep the rest - is here; every cryptographic call is real.
#include "scen.h"
enum Suite { SU_CFB, SU_IV, SU_AEGIS };
static const char *IVC[] = {"hc128", "rabbit", "sosemanuk", "chacha", "ctr"};

static Plan gen_c22(Rng &r, int tier) {
  Plan p; p.cfg["shared"] = r.pct(40); p.cfg["res"] = r.below(1000); p.cfg["key"] = r.below(1 << 20); p.cfg["tag"] = r.pct(60) ? 15 : r.range(3, 31); p.cfg["once"] = r.pct(60);
  for (int d = 0; d < 2; d++) { std::string s = std::to_string(d); p.cfg["suite" + s] = r.below(10); p.cfg["txvar" + s] = r.below(5); p.cfg["rxvar" + s] = r.below(5); p.cfg["mac" + s] = r.below(2); }
  int faultpct = (int)r.range(0, 3) * 12, n = (int)r.range(6, tier ? 80 : 40), style = (int)r.below(3);
  for (int i = 0; i < n; i++) {
    if (faultpct && r.pct(5)) { p.add("crash", {(i64)r.below(2), r.pct(70) ? gen_tick(r) : -1, (i64)r.below(4), (i64)r.below(300), r.pct(60)}); continue; }
    if (r.pct(7)) { p.add("save", {(i64)r.below(2)}); continue; }
    if (faultpct && r.pct(3)) { p.add("part", {(i64)r.range(1, 6)}); continue; }
    if (r.pct(2)) { p.add("rekey", {(i64)r.below(1 << 20)}); continue; }
    if (faultpct && r.pct(4)) { p.add("forge", {(i64)r.below(2), gsize(r, 300), (i64)r.below(1 << 20), (i64)r.below(4)}); continue; }
    i64 sz = style == 0 ? r.range(1, 40) : style == 1 ? 16 * r.range(1, 6) : std::max<i64>(1, gsize(r, 1500));
    std::vector<i64> a = {(i64)r.below(2), sz, (i64)r.below(1 << 20)}; gen_fate(r, a, faultpct, r.pct(60)); a.push_back(r.below(1 << 10)); a.push_back(r.below(60));
    p.add("send", a);
  }
  enlarge(r, p, "send", 1, 5, 17); soak(r, p);
  return p;
}
struct LinkPk { Bytes wire, pt; int dir, pred; size_t ctlen; u64 epoch; };
struct RxModel { int last; u64 run; bool synced; };
static void exec_c22(const Plan &p) {
  Node N[2]; N[0].shared = N[1].shared = p.get("shared");
  size_t tl = 1 + modn(p.get("tag"), 32);
  int suite[2]; Lib *lt[2], *lr[2]; std::string kd[2];
  for (int d = 0; d < 2; d++) {
    std::string s = std::to_string(d); i64 k = (i64)modn(p.get("suite" + s), 10); suite[d] = k < 4 ? SU_CFB : k < 9 ? SU_IV : SU_AEGIS;
    kd[d] = suite[d] == SU_CFB ? "cfb" : suite[d] == SU_AEGIS ? "aegis" : IVC[k - 4];
    auto v = variants(kd[d]); v.erase(std::remove(v.begin(), v.end(), "cfb.rr"), v.end()); auto a = modn(p.get("txvar" + s), v.size()), b = modn(p.get("rxvar" + s), v.size());
    lt[d] = lib(v[a]); lr[d] = kd[d] == "chacha" ? lt[d] : lib(v[b]); sig(mix(fnv(lt[d]->name.data(), lt[d]->name.size()), fnv(lr[d]->name.data(), lr[d]->name.size())));
  }
  auto mv = variants("hmac"); std::unique_ptr<Ctx> mac[2], tx[2], rx[2];          // mac per node; tx[d] lives on node d, rx[d] on node 1 - d
  Bytes ka, ke[2]; u64 epoch = 0; int INIT = -10; const int BROKEN = -3;
  int pred[2] = {INIT, INIT}; RxModel rm[2] = {{INIT, 0, true}, {INIT, 0, true}}; u64 ivno[2] = {0, 0};
  auto keys = [&](i64 seed) { ka = content(seed, 16 + modn(seed, 64)); for (int d = 0; d < 2; d++) ke[d] = stream_key(lt[d]->o, seed + 1 + d, 15 + modn(seed, 17)); };
  auto once = [&](int d) { return p.get("once") && lt[d]->o->load_key && lr[d]->o->load_key; };      // the key is loaded once, each packet brings its IV
  auto cfb_iv = [&] { return Bytes(16, 0); };
  auto start = [&](int w, u64 res, bool fresh) {        // node w starts with its keys
    i64 m = p.get("mac" + std::to_string(w));
    if (!mac[w]) { mac[w].reset(new Ctx(lib(mv[modn(m, mv.size())]), &N[w], res)); tx[w].reset(new Ctx(lt[w], &N[w], res + 1)); rx[1 - w].reset(new Ctx(lr[1 - w], &N[w], res + 2)); }
    else if (fresh) { mac[w]->fresh(res); tx[w]->fresh(res + 1); rx[1 - w]->fresh(res + 2); }
    mac[w]->load_key(ka, copt(res));
    for (int q = 0; q < 2; q++) { int d = q ? 1 - w : w; Ctx &c = q ? *rx[d] : *tx[d]; if (suite[d] == SU_CFB) c.init(ke[d], cfb_iv(), copt(res + 3)); else if (suite[d] == SU_AEGIS || once(d)) c.load_key(ke[d], copt(res + 4)); }
    pred[w] = INIT; rm[1 - w] = {INIT, 0, true};
  };
  keys(p.get("key")); start(0, p.get("res"), true); start(1, p.get("res") + 7, true);
  struct Save { bool have = false; Bytes mac, tx, rx; int pred; RxModel rm; } sv[2];
  std::vector<LinkPk> pk; Net net[2]; std::set<Bytes> authentic[2]; u64 released[2] = {0, 0};
  auto ivlen = [&](int d) { return suite[d] == SU_CFB ? (size_t)0 : suite[d] == SU_AEGIS ? (size_t)16 : (size_t)lt[d]->o->iv_len; };
  auto taglen = [&](int d) { return suite[d] == SU_AEGIS ? (size_t)16 : tl; };
  auto reftag = [&](const Bytes &m) { uint8_t t[32]; ref::hmac_sha256(ka.data(), ka.size(), m.data(), m.size(), t); return vb(t, tl); };
  auto sent_as = [&](int d, const Bytes &w) { return authentic[d].count(cat(cat(suite[d] == SU_AEGIS ? Bytes() : ka, ke[d]), w)) > 0; };
  // the receiving application; returns whether it released a plaintext
  auto receive = [&](int d, const Bytes &wire, Bytes &pt, i64 res, i64 stop = -1, bool crashing = false) -> bool {
    int w = 1 - d; size_t h = ivlen(d), t = taglen(d); if (wire.size() < h + t) return false;
    Bytes iv = sub(wire, 0, h), body = sub(wire, 0, wire.size() - t), ct = sub(wire, h, wire.size() - h - t), tag = sub(wire, wire.size() - t, t);
    if (suite[d] == SU_AEGIS) { Out o = rx[d]->open(ct, tag, Bytes(), iv, copt(res, stop)); if (!crashing && o.st != C_OK) fail("crash", "opening a packet raised an exception"); pt = o.b; return o.ret; }
    Out v = mac[w]->validate(tag, body, res & 1, copt(res, crashing && res % 3 == 0 ? stop : -1)); if (v.st != C_OK && !crashing) fail("crash", "validation raised an exception"); if (v.st != C_OK || !v.ret) return false;
    if (suite[d] == SU_IV) { CallOpt q = copt(res + 1, crashing && res % 3 == 1 ? stop : -1); Out o = once(d) ? rx[d]->load_iv(iv, q) : rx[d]->init(ke[d], iv, q); if (o.st != C_OK) { if (crashing) return false; fail("crash", "keying raised an exception"); } }
    Out o = rx[d]->process(ct, 1, copt(res + 2, stop)); if (!crashing && o.st != C_OK) fail("crash", "decryption raised an exception"); pt = o.b; return true;
  };
  auto deliver = [&](int d, const Msg &m) {
    Bytes pt; bool got = receive(d, m.data, pt, m.id * 5 + 1); const LinkPk &k = pk[m.id];
    bool should = sent_as(d, m.data);
    if (!should && suite[d] != SU_AEGIS && m.data.size() >= ivlen(d) + tl && m.data.size() > tl) should = reftag(sub(m.data, 0, m.data.size() - tl)) == sub(m.data, m.data.size() - tl, tl);     // short tags: a forgery may be right
    tr("   node %d receives packet %d of link %d (%zu bytes, %s): %s", 1 - d, m.id, d, m.data.size(), should ? "authentic" : "altered", got ? "released" : "rejected");
    sig(mix(d * 2 + should, got)); checked();
    if (got && !should) fail("forgery-released", "link %d (%s): the plaintext of an altered packet of %zu bytes was released", d, lr[d]->name.c_str(), m.data.size());
    if (!got && should) fail("authentic-rejected", "link %d (%s to %s): authentic packet %d of %zu bytes was rejected", d, lt[d]->name.c_str(), lr[d]->name.c_str(), m.id, m.data.size());
    if (!got) { if (suite[d] == SU_AEGIS) for (auto x : pt) if (x) fail("plaintext-released", "link %d (%s): a rejected packet left bytes in the plaintext buffer", d, lr[d]->name.c_str()); return; }
    released[d]++;
    if (!m.intact) { rm[d] = {BROKEN, 0, false}; return; }
    bool exact = true;
    if (suite[d] == SU_CFB) { RxModel &x = rm[d]; bool chain = x.last == k.pred; exact = chain && (x.synced || x.run >= 16); if (!chain) { x.synced = false; x.run = 0; } x.run += k.pt.size(); x.last = m.id; }
    if (exact) { checked(); if (pt != k.pt) fail("wrong-plaintext", "link %d (%s to %s): packet %d of %zu bytes was released as %s, sent %s", d, lt[d]->name.c_str(), lr[d]->name.c_str(), m.id, k.pt.size(), hex(pt).c_str(), hex(k.pt).c_str()); }
  };
  auto send = [&](int d, const Bytes &pt, i64 res, i64 stop, bool crashing) -> int {     // the sending application; -1 if it crashed
    size_t h = ivlen(d); Bytes iv(h, 0); u64 no = ++ivno[d]; for (size_t j = 0; j < h && j < 8; j++) iv[h - 1 - j] = (uint8_t)(no >> 8 * j);        // an IV is used up before it is used
    LinkPk k; k.dir = d; k.pt = pt; k.pred = pred[d]; k.epoch = epoch; Out o;
    if (suite[d] == SU_AEGIS) { o = tx[d]->seal(pt, Bytes(), iv, copt(res, stop)); if (o.st != C_OK) { if (crashing) return -1; fail("crash", "sealing raised an exception"); } k.wire = cat(iv, o.b); }
    else {
      if (suite[d] == SU_IV) { CallOpt co = copt(res, crashing && res % 3 == 1 ? stop : -1); Out q = once(d) ? tx[d]->load_iv(iv, co) : tx[d]->init(ke[d], iv, co); if (q.st != C_OK) { if (crashing) return -1; fail("crash", "keying raised an exception"); } }
      o = tx[d]->process(pt, 0, copt(res + 1, crashing && res % 3 == 2 ? stop : -1)); if (o.st != C_OK) { if (crashing) return -1; fail("crash", "encryption raised an exception"); }
      k.wire = cat(iv, o.b); o = mac[d]->tag(k.wire, (int)tl, copt(res + 2, crashing && res % 3 == 0 ? stop : -1)); if (o.st != C_OK) { if (crashing) return -1; fail("crash", "tag generation raised an exception"); }
      checked(); if (o.b != reftag(k.wire)) fail("wrong-tag", "node %d (%s): the tag of %zu bytes is %s, HMAC-SHA-256 gives %s", d, mac[d]->l->name.c_str(), k.wire.size(), hex(o.b).c_str(), hex(reftag(k.wire)).c_str());
      k.wire = cat(k.wire, o.b);
    }
    if (crashing) return -1;
    int id = (int)pk.size(); pk.push_back(k); pred[d] = id; authentic[d].insert(cat(cat(suite[d] == SU_AEGIS ? Bytes() : ka, ke[d]), k.wire)); return id;
  };
  i64 part = -1;
  auto poll = [&](i64 now) { for (int d = 0; d < 2; d++) for (auto &m : net[d].due(now)) deliver(d, m); };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); net[0].part = net[1].part = (i64)i < part;
    if (t.op == "send") {
      int d = (int)modn(t.arg(0), 2); int id = send(d, content(t.arg(2), 1 + modn(t.arg(1), 1 << 20)), t.arg(7), -1, false);
      Msg m; m.id = id; m.data = pk[id].wire; m.intact = true; m.fate = 0; net[d].send(i, m, t.arg(3), t.arg(4), t.arg(5), t.arg(6));
    } else if (t.op == "save") { int w = (int)modn(t.arg(0), 2); fault(F_CHECKPOINT); Save &s = sv[w]; s.have = true; s.mac = mac[w]->mem.bytes(); s.tx = tx[w]->mem.bytes(); s.rx = rx[1 - w]->mem.bytes(); s.pred = pred[w]; s.rm = rm[1 - w]; }
    else if (t.op == "crash") {
      int w = (int)modn(t.arg(0), 2);
      if (t.arg(1) >= 0) {     // in the middle of sending or receiving
        fault(F_CRASH); Bytes x; int d = 1 - w;
        if (modn(t.arg(2), 2) || pk.empty()) send(w, content(t.arg(3), 1 + modn(t.arg(3), 400)), t.arg(3), t.arg(1), true);
        else { const LinkPk *k = nullptr; for (auto &q : pk) if (q.dir == d && q.epoch == epoch) k = &q; if (k) receive(d, k->wire, x, t.arg(3), t.arg(1), true); }
      }
      fault(F_RESTART); N[w].restart(); Save &s = sv[w];
      if (s.have && t.arg(4)) {      // carry on from the checkpoint
        mac[w]->fresh(t.arg(3)); tx[w]->fresh(t.arg(3) + 1); rx[1 - w]->fresh(t.arg(3) + 2);
        memcpy(mac[w]->mem.p, s.mac.data(), s.mac.size()); memcpy(tx[w]->mem.p, s.tx.data(), s.tx.size()); memcpy(rx[1 - w]->mem.p, s.rx.data(), s.rx.size()); pred[w] = s.pred; rm[1 - w] = s.rm; fault(F_STALEW);
      } else start(w, t.arg(3), true);
    } else if (t.op == "rekey") {
      for (int d = 0; d < 2; d++) net[d].part = false; poll(INT64_MAX); fault(F_REKEY); keys(t.arg(0) + 3); epoch++; INIT--; for (int d = 0; d < 2; d++) { sv[d].have = false; net[d].log.clear(); }
      start(0, t.arg(0), false); start(1, t.arg(0) + 5, false);
    } else if (t.op == "soak") { cpu_limit(300);       // a long quiet time, both directions, a forgery now and then
      u64 n = std::min<u64>(modn(t.arg(0), 80000), 20000); net[0].part = net[1].part = false; poll(INT64_MAX); fault(F_STALL);
      for (u64 q = 0; q < n; q++) {
        int d = t.arg(2) & 1 ? (int)(q & 1) : (int)(pos(t.arg(1)) & 1); int id = send(d, content(t.arg(1) + (i64)(q % 3000) * 16 + 5, 1 + (q * 7 + pos(t.arg(1))) % 40), (i64)(q % 5), -1, false); Msg m; m.id = id; m.data = pk[id].wire; m.intact = true; m.fate = 0; simtime(200);
        if (t.arg(2) & 2 && q % 4 == 3) { Msg f = m; f.data[f.data.size() - 1 - q % taglen(d)] ^= 1 << q % 8; f.intact = false; f.fate = FT_CORRUPT; fault(F_FORGE); deliver(d, f); }
        deliver(d, m);
      }
    } else if (t.op == "part") part = i + 1 + (i64)modn(t.arg(0), 16);
    else if (t.op == "forge") {
      int d = (int)modn(t.arg(0), 2); fault(F_FORGE); Bytes w = content(t.arg(2), modn(t.arg(1), 4000) + (modn(t.arg(3), 4) ? ivlen(d) + taglen(d) : 0));
      if (modn(t.arg(3), 4) == 2 && !pk.empty()) { w = pk[modn(t.arg(2), pk.size())].wire; std::fill(w.end() - std::min(w.size(), taglen(d)), w.end(), 0); }      // tag wiped out
      if (modn(t.arg(3), 4) == 3 && !pk.empty()) { const LinkPk &o = pk[modn(t.arg(2), pk.size())]; w = o.wire; if (o.dir == d && o.epoch == epoch) w.push_back(0); }      // another link's or another key's packet
      Msg m; m.id = 0; m.data = w; m.intact = false; m.fate = FT_CORRUPT; if (pk.empty()) continue; deliver(d, m);
    }
    poll(i);
  }
  net[0].part = net[1].part = false; poll(INT64_MAX);
  // faults are over: the third packet of each direction at the latest is released, and exactly
  for (int k = 0; k < 4; k++) for (int d = 0; d < 2; d++) {
    SH->step = (int)(p.steps.size() + k); int id = send(d, content(p.seed + k * 2 + d, 9 + 12 * k), k, -1, false); u64 before = released[d];
    Msg m; m.id = id; m.data = pk[id].wire; m.intact = true; m.fate = 0; deliver(d, m); if (released[d] != before + 1) fail("no-progress", "link %d: with all faults over, a packet was not released", d);
    if (k >= 2 && suite[d] == SU_CFB && !(rm[d].synced || rm[d].run >= 16)) fail("no-progress", "link %d is not in step again", d);
  }
}
extern const Scenario link_scenarios[] = {{"C22", gen_c22, exec_c22}, {0, 0, 0}};
