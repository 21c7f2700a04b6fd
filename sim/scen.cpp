#include "scen.h"
std::vector<std::string> variants(const std::string &k) {
  static const char *all[] = {"plain", "x86fb", "x86hw", "armfb", "armhw"};
  std::vector<std::string> v;
  if (k == "cfb" || k == "ctr" || k == "aegis") for (auto s : all) if (has_lib(k + "." + s)) v.push_back(k + "." + s);
  if (k == "cfb" && has_lib("cfb.rr")) v.push_back("cfb.rr");
  if (k == "chacha") for (auto s : {"chacha.r20", "chacha.r12", "chacha.r8"}) if (has_lib(s)) v.push_back(s);
  if (k == "hmac") for (auto s : {"hmac.own", "hmac.hash"}) if (has_lib(s)) v.push_back(s);
  if (v.empty() && has_lib(k)) v.push_back(k);
  return v;
}
Ctx::Ctx(Lib *lib, Node *n, u64 residue, int guard) : l(lib), nd(n), gm(guard), o(lib->o) { fresh(residue); }
void Ctx::fresh(u64 residue) {
  mem = Buf(o->ctx_size, gm, residue, o->ctx_align);
  if (nd) nd->enter(l);
  ring->clear();
  if (o->construct) o->construct(mem.p);
}
CallOpt copt(i64 residue, i64 stop) { CallOpt c; c.residue = pos(residue); c.stop_at = stop; return c; }
Out Ctx::run(const CallOpt &opt, size_t work, std::vector<Buf *> bufs, const std::function<i64()> &f, Buf *out, Buf *out2) {
  Out r; CallOpt c = opt; c.work = work; if (c.residue) c.depth += 2 * std::min<size_t>(work, 1 << 20);
  if (nd) nd->enter(l);
  r.st = libcall(c, [&] { r.ret = f(); });
  if (r.st != C_OK) r.ret = 0;
  for (size_t i = 0; i < bufs.size(); i++) if (!bufs[i]->unmodified()) r.mod[i] = bufs[i]->bytes();
  if (gm) {
    for (size_t i = 0; i < bufs.size(); i++) {
      if (!bufs[i]->canaries_ok()) fail("overstep", "bytes outside argument %zu of a call on %s were written", i, l->name.c_str());
      if (bufs[i]->input && !bufs[i]->unmodified()) fail("input-modified", "input argument %zu of a call on %s was modified", i, l->name.c_str());
    }
    if (!mem.canaries_ok()) fail("overstep", "bytes outside the context of %s were written", l->name.c_str());
    if (!heap_canaries_ok()) fail("overstep", "bytes past a heap block were written by %s", l->name.c_str());
    checked(bufs.size() + 1);
  }
  if (r.st == C_OK) { if (out) r.b = out->bytes(); if (out2) { Bytes t = out2->bytes(); r.b.insert(r.b.end(), t.begin(), t.end()); } ev(r.b); ev(r.ret); }
  return r;
}
Out Ctx::init(const Bytes &key, const Bytes &iv, const CallOpt &c) { Buf k(kept(key), gm), v(iv, gm); return keyed(run(c, 8192, {&k, &v}, [&] { o->init(mem.p, k.p, (int)key.size(), v.p); return 0; }, nullptr), key); }
Out Ctx::load_key(const Bytes &key, const CallOpt &c) { Buf k(kept(key), gm); return keyed(run(c, 8192 + key.size(), {&k}, [&] { o->load_key(mem.p, k.p, (int)key.size()); return 0; }, nullptr), key); }
Out Ctx::load_iv(const Bytes &iv, const CallOpt &c) { Buf v(iv, gm); return run(c, 4096, {&v}, [&] { o->load_iv(mem.p, v.p); return 0; }, nullptr); }
Out Ctx::process(const Bytes &in, int mode, const CallOpt &c) { Buf i(in, gm), out(in.size(), gm, c.residue + 3); return run(c, in.size(), {&i, &out}, [&] { o->process(mem.p, out.p, i.p, in.size(), mode); return 0; }, &out); }
Out Ctx::cblock(u64 ctr, const CallOpt &c) { Buf out(64, gm, c.residue + 3, 4); return run(c, 64, {&out}, [&] { o->chacha_block(mem.p, (uint32_t)ctr, (uint32_t *)out.p); return 0; }, &out); }
Out Ctx::seal(const Bytes &pt, const Bytes &ad, const Bytes &iv, const CallOpt &c) {
  Buf p(pt, gm), a(ad, gm), v(iv, gm), ct(pt.size(), gm, c.residue + 3), t(16, gm, c.residue + 4);
  return run(c, pt.size() + ad.size(), {&p, &a, &v, &ct, &t}, [&] { o->seal(mem.p, ct.p, t.p, p.p, a.p, v.p, ad.size(), pt.size()); return 0; }, &ct, &t);
}
Out Ctx::open(const Bytes &ct, const Bytes &tag, const Bytes &ad, const Bytes &iv, const CallOpt &c) {
  Buf ci(ct, gm), a(ad, gm), v(iv, gm), p(ct.size(), gm, c.residue + 3), t(tag, gm);
  t.input = false;     // a wrong tag may be wiped
  Out r = run(c, ct.size() + ad.size(), {&ci, &a, &v, &p, &t}, [&] { return o->open(mem.p, p.p, ci.p, a.p, v.p, t.p, ad.size(), ct.size()); }, &p);
  if (gm && r.st == C_OK && r.ret && t.bytes() != tag) fail("input-modified", "the tag of an accepted packet was modified by %s", l->name.c_str());
  return r;
}
Out Ctx::tag(const Bytes &m, int tl, const CallOpt &c) { Buf b(m, gm), t(tl, gm, c.residue + 3); return run(c, m.size() + 256, {&b, &t}, [&] { o->tag(mem.p, t.p, b.p, m.size(), tl); return 0; }, &t); }
Out Ctx::validate(const Bytes &tag, const Bytes &m, bool adj, const CallOpt &c) {
  if (adj) { Buf b(cat(m, tag), gm); return run(c, m.size() + 256, {&b}, [&] { return o->validate(mem.p, b.p + m.size(), b.p, m.size(), (int)tag.size()); }, nullptr); }
  Buf b(m, gm), t(tag, gm); return run(c, m.size() + 256, {&b, &t}, [&] { return o->validate(mem.p, t.p, b.p, m.size(), (int)tag.size()); }, nullptr);
}
Out Ctx::sha(const Bytes &m, const CallOpt &c) { Buf b(m, gm), d(32, gm, c.residue + 3); return run(c, m.size() + 64, {&b, &d}, [&] { o->sha256(d.p, b.p, m.size()); return 0; }, &d); }
Out Ctx::hexenc(const Bytes &m, const CallOpt &c) { Buf b(m, gm), t(2 * m.size() + 1, gm, c.residue + 3); return run(c, 16 * m.size() + 64, {&b, &t}, [&] { o->hex_enc((char *)t.p, b.p, (int)m.size()); return 0; }, &t); }
Out Ctx::hexdec(const Bytes &x, const CallOpt &c) { Buf b(x, gm), m(x.size() / 2, gm, c.residue + 3); return run(c, 16 * x.size() + 64, {&b, &m}, [&] { o->hex_dec(m.p, (char *)b.p, (int)x.size()); return 0; }, &m); }
Out Ctx::md5_init(const CallOpt &c) { return run(c, 64, {}, [&] { o->md5_init(mem.p); return 0; }, nullptr); }
Out Ctx::md5_update(const Bytes &m, const CallOpt &c) { Buf b(m, gm); return run(c, m.size(), {&b}, [&] { o->md5_update(mem.p, b.p, (uint32_t)m.size()); return 0; }, nullptr); }
Out Ctx::md5_final(const CallOpt &c) { Buf d(16, gm, c.residue + 3); return run(c, 64, {&d}, [&] { o->md5_final(d.p, mem.p); return 0; }, &d); }
Out Ctx::md5_packet(const Bytes &m, const CallOpt &c) { Buf b(m, gm), d(16, gm, c.residue + 3); return run(c, m.size(), {&b, &d}, [&] { o->md5_packet(mem.p, d.p, b.p, (uint32_t)m.size()); return 0; }, &d); }
Out Ctx::des_key(const Bytes &k, bool dec, const CallOpt &c) { Buf b(kept(k), gm); return keyed(run(c, 64, {&b}, [&] { (dec ? o->des_key_dec : o->des_key_enc)(mem.p, b.p); return 0; }, nullptr), k); }
Out Ctx::des_ecb(const Bytes &m, const CallOpt &c) { Buf b(m, gm), d(m.size(), gm, c.residue + 3); return run(c, m.size(), {&b, &d}, [&] { o->des_ecb(mem.p, (uint32_t *)d.p, (uint32_t *)b.p, m.size()); return 0; }, &d); }
Out Ctx::des_ctr(const Bytes &m, const Bytes &nonce, const CallOpt &c) { Buf b(m, gm), v(nonce, gm), d(m.size(), gm, c.residue + 3); return run(c, m.size(), {&b, &v, &d}, [&] { o->des_ctr(mem.p, (uint32_t *)d.p, (uint32_t *)b.p, (uint32_t *)v.p, m.size()); return 0; }, &d); }
Out Ctx::des_block(const Bytes &m, const CallOpt &c) { Buf b(m, gm), d(8, gm, c.residue + 3); return run(c, 8, {&b, &d}, [&] { o->des_block(mem.p, (uint32_t *)d.p, (uint32_t *)b.p); return 0; }, &d); }

Bytes xorb(const Bytes &a, const Bytes &b) { Bytes r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = a[i] ^ b[i]; return r; }
Bytes ref_stream(const Lib *l, const Bytes &key, const Bytes &iv, size_t n) {
  Bytes ks(n + 64);
  switch (l->o->kind) {
    case K_CTR: for (size_t i = 0; i < n; i += 16) ref::ctr_block(key.data(), iv.data(), (uint32_t)(1 + i / 16), &ks[i]); break;
    case K_CHACHA: for (size_t i = 0; i < n; i += 64) ref::chacha_block(key.data(), iv.data(), (uint32_t)(1 + i / 64), l->rounds, &ks[i]); break;
    case K_HC128: { ref::Hc128 h; h.init(key.data(), iv.data()); for (size_t i = 0; i < n; i += 4) { uint32_t w = h.word(); for (int j = 0; j < 4; j++) ks[i + j] = w >> (8 * j); } break; }
    case K_RABBIT: { ref::Rabbit h; h.key(key.data()); h.iv(iv.data()); for (size_t i = 0; i < n; i += 16) h.block(&ks[i]); break; }
    case K_SERP: { static ref::Sosemanuk h; h.key(key.data(), key.size());
      for (size_t i = 0, b = 0; i < n; i += 48, b++) { uint32_t y[12], v[4]; memcpy(v, iv.data(), 16); v[3] ^= (uint32_t)b; if (i + 48 >= n && n % 16) memset((uint8_t *)v + n % 16, 0, 16 - n % 16); h.rounds((uint8_t *)v, y, y + 4, y + 8); memcpy(&ks[i], y, std::min<size_t>(48, n - i)); } break; }
    case K_SOSE: { static ref::Sosemanuk h; h.key(key.data(), key.size()); h.iv(iv.data()); for (size_t i = 0; i < n; i += 16) h.block(&ks[i]); break; }
  }
  ks.resize(n); return ks;
}
void flip_bits(Bytes &d, i64 nbits, i64 seed, i64 *first, i64 *last) {
  if (d.empty()) return;
  Rng r(seed); u64 n = 1 + modn(nbits, 4); std::set<u64> done;
  for (u64 k = 0; k < n; k++) {
    u64 bit = r.below(d.size() * 8); if (!done.insert(bit).second) continue;
    d[bit / 8] ^= 1 << (bit % 8);
    if (first) { if (*first < 0 || (i64)(bit / 8) < *first) *first = bit / 8; if (*last < (i64)(bit / 8)) *last = bit / 8; }
  }
}
void Net::send(i64 now, const Msg &m0, i64 fate, i64 a, i64 b, i64 delay) {
  log.push_back(m0);
  if (part) { fault(F_PARTITION); tr("   partition: message %d lost", m0.id); return; }
  fate = (i64)modn(fate, FT_N); delay = (i64)modn(delay, 1 << 12);
  Msg m = m0; m.fate = (int)fate;
  if (delay) fault(F_DELAY);
  sig(fate * 8 + (delay > 3 ? 3 : delay));
  auto put = [&](const Msg &x, i64 dl) { q.push_back(E{now + dl, ord++, x}); };
  switch (fate) {
    case FT_DROP: fault(F_DROP); tr("   message %d dropped", m.id); return;
    case FT_DUP: fault(F_DUP); put(m, delay); put(m, delay + (i64)modn(a, 64)); return;
    case FT_CORRUPT: if (!m.data.empty()) { fault(F_CORRUPT); flip_bits(m.data, a, b, &m.first_flip, &m.last_flip); m.intact = false; } break;
    case FT_TRUNC: if (!m.data.empty()) { fault(F_TRUNC); m.data.resize(modn(a, m.data.size())); m.intact = false; } break;
    case FT_EXTEND: fault(F_EXTEND); m.data = cat(m.data, content(b, 1 + modn(a, 40))); m.intact = false; break;
    case FT_SPLICE: if (log.size() > 1) { const Bytes &o = log[log.size() - 2].data; size_t at = modn(a, m.data.size() + 1); Bytes d = cat(sub(m.data, 0, at), sub(o, modn(b, o.size() + 1), 1 << 20)); if (d != m.data) { fault(F_SPLICE); m.data = d; m.intact = false; } } break;
    case FT_REPLAY: { fault(F_REPLAY); put(m, delay); Msg old = log[modn(a, log.size())]; put(old, delay + (i64)modn(b, 16)); return; }
  }
  put(m, delay);
}
std::vector<Msg> Net::due(i64 now) {
  std::vector<Msg> r; std::vector<E> keep, out;
  for (auto &e : q) (e.due <= now ? out : keep).push_back(e);
  q.swap(keep);
  std::stable_sort(out.begin(), out.end(), [](const E &x, const E &y) { return x.due != y.due ? x.due < y.due : x.ord < y.ord; });
  for (auto &e : out) {
    if (have && e.ord < lastdelivered) { fault(F_REORDER); sig(77); }
    if (!have || e.ord > lastdelivered) lastdelivered = e.ord; have = true; simtime(100 + (e.ord * 37) % 900); r.push_back(e.m);
  }
  return r;
}
void gen_fate(Rng &r, std::vector<i64> &a, int faultpct, bool reorder) {
  i64 f = FT_OK;
  if (r.pct(faultpct)) f = r.range(1, FT_N - 1);
  a.push_back(f); a.push_back(r.below(1 << 16)); a.push_back(r.below(1 << 16));
  a.push_back(reorder && r.pct(faultpct) ? r.range(1, 6) : 0);
}
i64 gen_tick(Rng &r) { return (i64)r.below(1ull << r.range(1, 13)); }
Bytes stream_key(const Ops *o, u64 seed, i64 len) {
  i64 n = o->key_min == o->key_max ? o->key_max : o->key_min + (i64)modn(len, o->key_max - o->key_min + 1);
  return content(seed, n);
}
u64 GEN_INDEX;
i64 rare(u64 n) { return GEN_INDEX % n == n / 2 ? (i64)(GEN_INDEX / n) : -1; }
void soak(Rng &r, Plan &p, const std::vector<i64> &rest) {
  i64 n = rare(1999) >= 0 ? 66000 + (i64)r.below(5000) : rare(211) >= 0 ? r.range(1500, 5000) : rare(29) >= 0 ? r.range(200, 700) : 0; if (!n) return;
  Step s; s.op = "soak"; s.a = {n, (i64)r.below(1 << 20), (i64)r.below(4)}; s.a.insert(s.a.end(), rest.begin(), rest.end());
  p.steps.insert(p.steps.begin() + r.below(p.steps.size() + 1), s);
}
i64 hugearg(Rng &r, i64 nth) { i64 v = r.below(1 << 16); return nth % 2 ? v : (v & ~15) | 9 | (v & 6); }
size_t hugelen(size_t around, i64 v) { static const int at[] = {-9, -8, -1, 0, 55, 56, 63, 64}; u64 u = pos(v); return u & 1 ? around + at[u / 2 % 8] : around - 70 + u / 2 % 140; }
Bytes related(const std::vector<Bytes> &used, i64 seed, size_t len) {
  u64 s = pos(seed); if (used.empty() || s % 4 < 2) return content(s, len);
  Bytes k = used[used.size() - 1 - s / 4 % std::min<size_t>(used.size(), 3)]; k.resize(len);
  if (s % 4 == 3 && len) k[s & 64 ? len - 1 : s / 128 % len] ^= 1 << s / 16 % 8;
  return k;
}
// Rabbit IVs with a negative seed are aimed at a counter sum of exactly 2^32
Bytes stream_iv(const Lib *l, const Bytes &key, i64 seed) {
  Bytes iv = content(pos(seed), l->o->iv_len);
  if (l->o->kind == K_RABBIT && seed < 0) {
    ref::Rabbit r; r.key(key.data());
    uint32_t lo = r.mC[0] ^ (uint32_t)-(0x4D34D34Du + r.mb), hi = r.mC[2] ^ (uint32_t)-(0x34D34D34u + (pos(seed) & 1));
    uint32_t v = (pos(seed) & 2) ? hi : lo; int at = (pos(seed) & 2) ? 4 : 0;
    for (int i = 0; i < 4; i++) iv[at + i] = v >> (8 * i);
  }
  return iv;
}
void enlarge(Rng &r, Plan &p, const char *op, size_t arg, int permille, int top) {
  if (r.below(1000) >= (u64)permille) return;
  for (int k = 0; k < 2; k++) {
    std::vector<size_t> c; for (size_t i = 0; i < p.steps.size(); i++) if (p.steps[i].op == op && arg < p.steps[i].a.size()) c.push_back(i);
    if (c.empty()) return;
    int e = (int)r.range(12, r.pct(75) ? 16 : top); i64 n = (1ll << e) + (r.pct(50) ? r.range(-20, 20) : (i64)r.below(1ull << e)); if (r.pct(40)) n &= r.pct(50) ? ~15ll : ~63ll;
    p.steps[c[r.below(c.size())]].a[arg] = n; if (r.pct(60)) return;
  }
}
