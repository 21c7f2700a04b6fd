// Scenarios over Joye-Libert and labeled HE: C12 C13 C14 C16, and their units
// for the mixed scenarios.
#include "scen.h"
#ifdef HAVE_GMP
#include <gmp.h>
struct Z { mpz_t z; Z() { mpz_init(z); } Z(u64 v) { mpz_init_set_ui(z, v); } Z(const Z &o) { mpz_init_set(z, o.z); } Z &operator=(const Z &o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); }
  bool operator==(const Z &o) const { return mpz_cmp(z, o.z) == 0; } };
static Bytes zb(mpz_srcptr z) { Bytes b; size_t n = (mpz_sizeinbase(z, 2) + 7) / 8; b.resize(n + 1); size_t c = 0; mpz_export(b.data(), &c, 1, 1, 1, 0, z); b.resize(c); if (mpz_sgn(z) < 0) b.insert(b.begin(), '-'); return b; }
static std::string zs(const Z &z) { std::string s = hex(zb(z.z), 60); return s.empty() ? "0" : s; }
static Z zval(i64 seed, unsigned k) {                  // plaintexts: boundary values often
  Z r; u64 s = pos(seed);
  switch (s % 8) {
    case 0: break;
    case 1: mpz_set_ui(r.z, 1); break;
    case 2: mpz_ui_pow_ui(r.z, 2, k); mpz_sub_ui(r.z, r.z, 1); break;
    case 3: mpz_ui_pow_ui(r.z, 2, k - 1); break;
    case 4: mpz_ui_pow_ui(r.z, 2, k - 1); mpz_sub_ui(r.z, r.z, 1); break;
    case 5: mpz_set_ui(r.z, 1 + s / 8 % 1000); break;
    default: { Bytes b = content(s * 16 + 5, k / 8); mpz_import(r.z, b.size(), 1, 1, 1, 0, b.data()); }
  }
  return r;
}
struct Key { Z N, y, p; unsigned k, bits; };
static void krand(Z &z, Rng &r, unsigned bits) { Bytes b((bits + 7) / 8); for (auto &x : b) x = r.next(); mpz_import(z.z, b.size(), 1, 1, 1, 0, b.data()); mpz_fdiv_r_2exp(z.z, z.z, bits); mpz_setbit(z.z, bits - 1); }
static Key harness_key(u64 seed, unsigned k, unsigned bits) {   // any p = 1 mod 2^k and q = 3 mod 4 will do
  Key K; K.k = k; K.bits = bits; Rng r(seed * 77 + k); Z q, one(1);
  do { krand(K.p, r, bits / 2); mpz_fdiv_q_2exp(K.p.z, K.p.z, k); mpz_mul_2exp(K.p.z, K.p.z, k); mpz_add_ui(K.p.z, K.p.z, 1); } while (!mpz_probab_prime_p(K.p.z, 20));
  do { krand(q, r, bits - bits / 2); mpz_setbit(q.z, 0); mpz_setbit(q.z, 1); } while (!mpz_probab_prime_p(q.z, 20));
  mpz_mul(K.N.z, K.p.z, q.z);
  do { krand(K.y, r, bits); mpz_mod(K.y.z, K.y.z, K.N.z); } while (mpz_legendre(K.y.z, K.p.z) != -1 || mpz_legendre(K.y.z, q.z) != -1);
  return K;
}
static Key lib_key(Lib *l, u64 seed, unsigned k, unsigned bits, bool viahe, u64 res) {
  Key K; K.k = k; K.bits = bits; sim_gmp_default_seed(seed ? seed : 1); CallOpt c = copt((i64)res); c.work = 1 << 14;
  libcall(c, [&] { (viahe && l->o->he_keygen ? l->o->he_keygen : l->o->jl_keygen)(K.N.z, K.y.z, K.p.z, k, bits); });
  return K;
}
struct RS { gmp_randstate_t s; RS(u64 seed) { gmp_randinit_mt(s); gmp_randseed_ui(s, seed); } RS(const RS &o) { gmp_randinit_set(s, o.s); } ~RS() { gmp_randclear(s); } RS &operator=(const RS &o) { gmp_randclear(s); gmp_randinit_set(s, o.s); return *this; } };
static u64 ct_residue() { static const uint8_t kind[] = {0xA5, 0, 0xFF, 1}; static unsigned n; return kind[n++ % 4]; }      // what the memory of a ciphertext held before
struct Ct { const Ops *o; Bytes mem; void *p; Ct(const Ops *ops) : o(ops), mem(ops->ctx_size + 64, (uint8_t)ct_residue()) { p = (void *)(((uintptr_t)mem.data() + 63) & ~(uintptr_t)63); o->construct(p); } ~Ct() { o->he_ct_free(p); } Ct(const Ct &) = delete; mpz_ptr a() { return (mpz_ptr)o->he_ct_a(p); } mpz_ptr beta() { return (mpz_ptr)o->he_ct_beta(p); } };
struct Hc { const Ops *o; Bytes mem; void *p; Hc(const Ops *ops, const Bytes &key, const Bytes &iv, u64 res) : o(ops), mem(ops->hc_size + 64) { p = (void *)(((uintptr_t)mem.data() + 63) & ~(uintptr_t)63); Rng r(res); for (auto &x : mem) x = res % 3 ? r.next() : 0; o->hc_construct(p); init(key, iv); }
  void init(const Bytes &key, const Bytes &iv) { Bytes k = key, v = iv; libcall(CallOpt(), [&] { o->hc_init(p, k.data(), v.data()); }); }
  Bytes save() { return vb((uint8_t *)p, o->hc_size); } void load(const Bytes &b) { memcpy(p, b.data(), b.size()); } Hc(const Hc &) = delete; };
static CallOpt gopt(i64 res, i64 stop = -1) { CallOpt c = copt(res, stop); c.work = 1 << 12; return c; }
static CallStatus jl_enc(Lib *l, Z &c, RS &rs, const Z &m, const Key &K, const CallOpt &o = gopt(0)) { return libcall(o, [&] { l->o->jl_encrypt(c.z, rs.s, (void *)m.z, (void *)K.y.z, (void *)K.N.z, K.k); }); }
static CallStatus jl_dec(Lib *l, Z &m, const Z &c, const Key &K, const CallOpt &o = gopt(0)) { return libcall(o, [&] { l->o->jl_decrypt(m.z, (void *)c.z, (void *)K.p.z, (void *)K.y.z, K.k); }); }
static unsigned pick_k(i64 v) { static const unsigned ks[] = {32, 32, 64, 32, 96, 128, 64, 160, 192, 256}; return ks[modn(v, 10)]; }
static Key plan_key(Lib *l, const Plan &p) {
  unsigned k = pick_k(p.get("k")); unsigned bits = 2 * (k + 32) + (unsigned)modn(p.get("bits"), 5) * 16;
  if (p.get("libkey")) return lib_key(l, pos(p.get("key")) + 1, k, bits, p.get("viahe"), pos(p.get("res")));
  return harness_key(pos(p.get("key")), k, bits);
}
static Key other_y(const Key &K, u64 seed) {            // the same modulus with another y
  Key J = K; Z q; mpz_divexact(q.z, K.N.z, K.p.z); Rng r(seed * 131 + 7);
  do { krand(J.y, r, (unsigned)mpz_sizeinbase(K.N.z, 2)); mpz_mod(J.y.z, J.y.z, K.N.z); } while (mpz_legendre(J.y.z, K.p.z) != -1 || mpz_legendre(J.y.z, q.z) != -1);
  return J;
}
static void gen_key(Rng &r, Plan &p, int tier) { p.cfg["k"] = r.below(tier && r.pct(20) ? 10 : 7); p.cfg["bits"] = r.below(5); p.cfg["key"] = r.below(1 << 20); p.cfg["libkey"] = r.pct(40); p.cfg["viahe"] = r.pct(50); p.cfg["res"] = r.below(1000); p.cfg["lib"] = r.below(2); p.cfg["mu"] = r.pct(25); }
static const char *he_lib(const Plan &p) { return p.get("mu") && has_lib("mulhe") ? "mulhe" : "lhe"; }
static void zmod2k(Z &z, unsigned k) { mpz_fdiv_r_2exp(z.z, z.z, k); }

// ================================================================ units
static Key unit_key(u64 v) { static const unsigned w[] = {32, 32, 32, 32, 32, 32, 32, 64, 96, 128}; unsigned k = w[v / 8 % 10]; return harness_key(v % 8, k, k == 32 ? 144 : 2 * (k + 32)); }
struct GUnit : Unit {
  Node *nd; Key K; RS rs; u64 ks; std::vector<std::unique_ptr<Ct>> ct; std::unique_ptr<Hc> hc; u64 res;
  GUnit(Lib *lib, Node *n, u64 k, u64 r) : nd(n), K(unit_key(k)), rs(k), ks(k), res(r) { l = lib; if (nd) nd->enter(l); rekey(r); }
  void rekey(u64) override {
    if (nd) nd->enter(l); ct.clear();
    if (l->o->kind == K_LHE) { hc.reset(new Hc(l->o, content(ks, 16), content(ks + 1, 16), res)); for (int i = 0; i < 4; i++) { ct.emplace_back(new Ct(l->o)); Z b, m = zval(ks + i * 7 + 6, 32), lb(17 + i); libcall(gopt(0), [&] { l->o->he_encrypt(ct[i]->p, rs.s, hc->p, b.z, m.z, K.y.z, K.N.z, lb.z, K.k); }); } }
  }
  Out op(const std::vector<i64> &a, const CallOpt &c0) override {
    i64 code = (i64)modn(a[0], 16); u64 seed = pos(a[2]); const Ops *o = l->o; Out r; CallOpt c = c0; c.work = 1 << 12; if (nd) nd->enter(l);
    auto junk = [&](i64 v) { Z z; switch (modn(v, 8)) { case 0: break; case 1: mpz_set_ui(z.z, 1); break; case 2: mpz_sub_ui(z.z, K.N.z, 1); break; case 3: z = K.N; break; case 4: z = K.p; break; default: { Bytes b = content(seed * 16 + 5 + v, 1 + modn(a[1], 200)); mpz_import(z.z, b.size(), 1, 1, 1, 0, b.data()); } } return z; };
    if (o->mu_keygen && code == 9) { Z u, s; r.st = libcall(c, [&] { o->mu_keygen(u.z, s.z, rs.s, K.N.z, K.y.z, K.k); }); r.b = cat(zb(u.z), zb(s.z)); ev(r.b); return r; }
    if (o->kind == K_JL || (code & 7) == 1) {
      if (code < 5) { Z ct, m = zval(a[2], K.k); r.st = jl_enc(l, ct, rs, m, K, c); r.b = zb(ct.z); }
      else { Z m, ct; if (code < 8) { Z e = zval(a[2], K.k), x(5 + seed); Z k2; mpz_ui_pow_ui(k2.z, 2, K.k); mpz_powm(ct.z, K.y.z, e.z, K.N.z); mpz_powm(x.z, x.z, k2.z, K.N.z); mpz_mul(ct.z, ct.z, x.z); mpz_mod(ct.z, ct.z, K.N.z); } else ct = junk(a[4]);
        r.st = jl_dec(l, m, ct, K, c); r.b = zb(m.z); }
      ev(r.b); return r;
    }
    auto C = [&](i64 v) -> Ct & { return *ct[modn(v, 4)]; };
    if (code >= 8) { Z q = junk(a[4]), w = junk(a[3]); mpz_set(C(a[3]).beta(), q.z); mpz_set(C(a[3]).a(), w.z); }      // malformed ciphertexts
    Z d, m = zval(a[2], K.k), b, t1 = zval(a[2] + 3, K.k);
    switch (code & 7) {
      case 0: { Z lb(seed); if (a[3] & 3) lb = zval(a[3] / 4, K.k); r.st = libcall(c, [&] { o->he_encrypt(C(a[4]).p, rs.s, hc->p, b.z, m.z, K.y.z, K.N.z, lb.z, K.k); }); r.b = cat(cat(zb(b.z), zb(C(a[4]).a())), zb(C(a[4]).beta())); break; }
      case 2: r.st = libcall(c, [&] { o->he_add(C(a[4]).p, C(a[3]).p, C(a[3] / 4).p, K.N.z, K.k); }); break;
      case 3: r.st = libcall(c, [&] { o->he_sub(C(a[4]).p, C(a[3]).p, C(a[3] / 4).p, K.N.z, K.k); }); break;
      case 4: r.st = libcall(c, [&] { o->he_cmult(C(a[4]).p, C(a[3]).p, m.z, K.N.z, K.k); }); break;
      case 5: r.st = libcall(c, [&] { o->he_mult(d.z, rs.s, C(a[3]).p, C(a[4]).p, K.y.z, K.N.z, K.k); }); break;
      case 6: if (a[4] & 8) { Z cc(3 + seed); r.st = libcall(c, [&] { o->he_dec2(d.z, cc.z, m.z, K.p.z, K.y.z, K.k); }); } else r.st = libcall(c, [&] { o->he_dec(d.z, C(a[3]).p, K.p.z, K.y.z, K.k); }); break;
      case 7: { Z b12(7 + seed), b13(9 + seed), b23(11 + seed); r.st = libcall(c, [&] { if (a[4] & 8) { o->he_add2(d.z, b12.z, b13.z, K.N.z); o->he_sub2(d.z, d.z, b23.z, K.N.z); o->he_cmult2(d.z, d.z, m.z, K.N.z); } else o->he_mult3(d.z, rs.s, C(a[3]).p, C(a[4]).p, C(a[3] / 4).p, b12.z, b13.z, b23.z, K.y.z, K.N.z, K.k); }); break; }
    }
    if ((code & 7) >= 2 && (code & 7) <= 4) r.b = cat(zb(C(a[4]).a()), zb(C(a[4]).beta())); else if ((code & 7) >= 5) r.b = zb(d.z);
    ev(r.b); return r;
  }
};
std::unique_ptr<Unit> make_gmp_unit(Lib *l, Node *n, u64 ks, u64 res) { return std::unique_ptr<Unit>(new GUnit(l, n, ks, res)); }

// ================================================================ C12: aggregation over a network
// "add" value client fate a b delay res | "merge" from to | "dec" acc res | "enc_abandon"/"dec_abandon" tick v | "restart" | "part" n
static Plan gen_c12(Rng &r, int tier) {
  Plan p; gen_key(r, p, tier); p.cfg["rs"] = r.below(1 << 20); p.cfg["nkeys"] = r.pct(50) ? 0 : r.range(1, 3); int n = (int)r.range(3, tier ? 40 : 18), faultpct = (int)r.range(0, 3) * 15;
  for (int i = 0; i < n; i++) {
    if (r.pct(12)) { p.add("dec", {(i64)r.below(3), (i64)r.below(100)}); continue; }
    if (r.pct(10)) { p.add("merge", {(i64)r.below(3), (i64)r.below(3)}); continue; }
    if (faultpct && r.pct(8)) { p.add(r.pct(50) ? "enc_abandon" : "dec_abandon", {gen_tick(r) / 8, (i64)r.below(1 << 20), (i64)r.below(3)}); continue; }
    if (faultpct && r.pct(5)) { p.add("restart", {(i64)r.below(3)}); continue; }
    if (faultpct && r.pct(3)) { p.add("part", {r.range(1, 4)}); continue; }
    i64 f = r.pct(faultpct) ? (r.pct(50) ? FT_DROP : r.pct(50) ? FT_DUP : FT_REPLAY) : FT_OK;
    p.add("add", {(i64)r.below(1 << 20), (i64)r.below(3), f, (i64)r.below(1 << 16), (i64)r.below(1 << 16), r.pct(faultpct) ? r.range(1, 6) : 0, (i64)r.below(100)});
  }
  p.add("dec", {0, 3});
  soak(r, p); return p;
}
static void exec_c12(const Plan &p) {
  Lib *l = lib(p.get("lib") && has_lib("lhe") ? he_lib(p) : "jl"); Node nd; nd.enter(l); RS rs(pos(p.get("rs")));
  // the aggregates' keys: one for all, or each its own (of another width, or sharing its modulus with the first)
  Key keys[3]; keys[0] = keys[1] = keys[2] = plan_key(l, p); i64 nk = (i64)modn(p.get("nkeys"), 4); sig(mix(keys[0].k * 4 + nk, l->o->kind)); if (nk) fault(F_REKEY);
  if (nk & 1) { Plan q = p; q.cfg["libkey"] = 0; q.cfg["key"] = p.get("key") + 1; q.cfg["k"] = (i64)pos(p.get("key")); keys[1] = plan_key(l, q); }
  if (nk & 2) keys[2] = other_y(keys[0], pos(p.get("key")));
  struct Acc { Z c, m; u64 n = 0; Acc() : c(1), m(0) {} }; Acc acc[3]; auto kn = [&](size_t w) -> Key & { return keys[w]; }; std::vector<std::pair<Z, int>> sent; Net net; i64 part_until = -1; Z tmp;
  auto deliver = [&](const Msg &m) {
    Acc &a = acc[sent[m.id].second]; Key &K = kn(sent[m.id].second); unsigned k = K.k; Z c; mpz_import(c.z, m.data.size(), 1, 1, 1, 0, m.data.data());
    if (l->o->he_add2 && (m.id & 1)) libcall(gopt(m.id), [&] { l->o->he_add2(a.c.z, a.c.z, c.z, K.N.z); }); else { mpz_mul(a.c.z, a.c.z, c.z); mpz_mod(a.c.z, a.c.z, K.N.z); }
    mpz_add(a.m.z, a.m.z, sent[m.id].first.z); zmod2k(a.m, k); a.n++; sig(a.n);
  };
  auto check = [&](size_t w, i64 res) {
    Acc &a = acc[w]; Key &K = kn(w); unsigned k = K.k;
    Z m(77); if (jl_dec(l, m, a.c, K, gopt(res)) != C_OK) fail("crash", "decryption raised an exception"); ev(zb(m.z)); checked();
    if (!(m == a.m)) fail("wrong-sum", "an aggregate of %llu contribution(s) decrypts to %s, their sum modulo 2^%u is %s", (unsigned long long)a.n, zs(m).c_str(), k, zs(a.m).c_str());
  };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); net.part = (i64)i < part_until;
    if (t.op == "add") {
      Key &K = kn(modn(t.arg(1), 3)); unsigned k = K.k; Z m = zval(t.arg(0), k), c; if (jl_enc(l, c, rs, m, K, gopt(t.arg(6))) != C_OK) fail("crash", "encryption raised an exception"); ev(zb(c.z)); sig(modn(t.arg(0), 8));
      Z d; jl_dec(l, d, c, K, gopt(t.arg(6) + 1)); checked(); if (!(d == m)) fail("wrong-plaintext", "a ciphertext of %s decrypts to %s (%u-bit messages)", zs(m).c_str(), zs(d).c_str(), k);
      if (mpz_sgn(c.z) < 0 || mpz_cmp(c.z, K.N.z) >= 0) fail("not-reduced", "a ciphertext is not a residue modulo N");
      Msg q; q.id = (int)sent.size(); q.data = zb(c.z); q.intact = true; sent.push_back({m, (int)modn(t.arg(1), 3)}); i64 f = (i64)modn(t.arg(2), FT_N); if (f == FT_CORRUPT || f == FT_TRUNC || f == FT_EXTEND || f == FT_SPLICE) f = FT_OK;
      net.send(i, q, f, t.arg(3), t.arg(4), t.arg(5));
    } else if (t.op == "merge") { size_t f = modn(t.arg(0), 3), to = modn(t.arg(1), 3); Key &K = kn(to); unsigned k = K.k; if (!(kn(f).N == K.N && kn(f).y == K.y)) continue; Acc a = acc[f]; mpz_mul(acc[to].c.z, acc[to].c.z, a.c.z); mpz_mod(acc[to].c.z, acc[to].c.z, K.N.z); mpz_add(acc[to].m.z, acc[to].m.z, a.m.z); zmod2k(acc[to].m, k); acc[to].n += a.n; }
    else if (t.op == "dec") check(modn(t.arg(0), 3), t.arg(1));
    else if (t.op == "soak") { cpu_limit(300);        // very many contributions
      size_t w = modn(t.arg(1), 3); Key &K = kn(w); Acc &a = acc[w]; u64 n = std::min<u64>(modn(t.arg(0), 80000), K.k > 64 ? 2000 : 80000); fault(F_STALL);
      for (u64 q = 0; q < n; q++) {
        Z m = zval(t.arg(1) + (i64)q * 13, K.k), c; if (jl_enc(l, c, rs, m, K, gopt((i64)(q % 3))) != C_OK) fail("crash", "encryption raised an exception"); if (mpz_sgn(c.z) < 0 || mpz_cmp(c.z, K.N.z) >= 0) fail("not-reduced", "a ciphertext is not a residue modulo N");
        if (l->o->he_add2 && (t.arg(2) & 1)) libcall(gopt((i64)(q % 3)), [&] { l->o->he_add2(a.c.z, a.c.z, c.z, K.N.z); }); else { mpz_mul(a.c.z, a.c.z, c.z); mpz_mod(a.c.z, a.c.z, K.N.z); }
        mpz_add(a.m.z, a.m.z, m.z); zmod2k(a.m, K.k); a.n++; simtime(100); if (t.arg(2) & 2 ? true : q % 16 == 0) { Z d; jl_dec(l, d, c, K, gopt((i64)(q % 3))); checked(); if (!(d == m)) fail("wrong-plaintext", "ciphertext %llu of many, of %s, decrypts to %s", (unsigned long long)q, zs(m).c_str(), zs(d).c_str()); check(w, 1); }
      }
      check(w, 2);
    }
    else if (t.op == "enc_abandon") { fault(F_ABANDON); Key &K = kn(modn(t.arg(2), 3)); Z c, m = zval(t.arg(1), K.k); jl_enc(l, c, rs, m, K, gopt(3, (i64)pos(t.arg(0)))); fault(F_RETRY); Z d; jl_enc(l, c, rs, m, K); jl_dec(l, d, c, K); checked(); if (!(d == m)) fail("wrong-plaintext", "an encryption repeated after an interruption decrypts to %s, not %s", zs(d).c_str(), zs(m).c_str()); }
    else if (t.op == "dec_abandon") { fault(F_ABANDON); Z m; size_t w = modn(t.arg(2), 3); jl_dec(l, m, acc[w].c, kn(w), gopt(3, (i64)pos(t.arg(0)))); fault(F_RETRY); check(w, t.arg(1) & 7); }
    else if (t.op == "restart") { fault(F_RESTART); nd.restart(); Acc &a = acc[modn(t.arg(0), 3)]; Bytes b = zb(a.c.z); Z c; mpz_import(c.z, b.size(), 1, 1, 1, 0, b.data()); a.c = c; }
    else if (t.op == "part") part_until = i + 1 + (i64)modn(t.arg(0), 8);
    for (auto &m : net.due(i)) deliver(m);
  }
  for (auto &m : net.drain()) deliver(m);
  for (size_t w = 0; w < 3; w++) check(w, 1);
}

// ================================================================ C13: programs over labeled ciphertexts
static const char *he_ops[] = {"enc", "add", "sub", "cmul", "mult", "mult3", "add2", "sub2", "cmul2", "dec", "dec2", "abandon", "restart"};      // and "user", a client key of the multi-user scheme
static Plan gen_c13(Rng &r, int tier) {
  Plan p; gen_key(r, p, tier); p.cfg["rs"] = r.below(1 << 20); p.cfg["hk"] = r.below(1 << 20); int n = (int)r.range(4, tier ? 40 : 22); int nc = (int)r.range(1, 3);
  for (int i = 0; i < 4; i++) p.add("enc", {i, (i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(nc), (i64)r.below(100)});
  static const int w[] = {8, 10, 10, 10, 10, 8, 8, 8, 8, 6, 10, 4, 3};
  for (int i = 0; i < n; i++) { if (r.pct(3)) { p.add("rekey", {(i64)r.below(7), (i64)r.below(5), (i64)r.below(1 << 20)}); for (int j = 0; j < 3; j++) p.add("enc", {j, (i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(nc), (i64)r.below(100)}); }
    int x = (int)r.below(103), o = 0; while (o < 12 && x >= w[o]) x -= w[o++]; p.add(he_ops[o], {(i64)r.below(4), (i64)r.below(o == 0 || o == 3 || o == 8 ? 1 << 20 : 4), (i64)r.below(o == 0 ? 1 << 20 : 4), (i64)r.below(4), (i64)r.below(100)}); }
  if (p.get("mu")) for (int i = 0; i < 2; i++) p.steps.insert(p.steps.begin() + r.below(p.steps.size() + 1), Step{"user", {(i64)r.below(100), r.pct(30) ? gen_tick(r) / 16 : -1}});
  soak(r, p); return p;
}
static void exec_c13(const Plan &p) {
  Lib *l = lib(he_lib(p)); const Ops *o = l->o; Node nd; nd.enter(l); Key K = plan_key(l, p); unsigned k = K.k; RS rs(pos(p.get("rs"))); sig(k);
  std::vector<std::unique_ptr<Hc>> hc; for (int i = 0; i < 3; i++) hc.emplace_back(new Hc(o, content(p.get("hk") + i, 16), content(p.get("hk") + 9, 16), p.get("res")));
  struct R1 { std::unique_ptr<Ct> c; Z m, b; bool set = false; }; struct R2 { Z c, m, b; bool set = false; }; R1 a[4]; R2 s[4]; for (auto &x : a) x.c.reset(new Ct(o));
  auto dec1 = [&](R1 &x, i64 res) {
    Z m(3), v; CallStatus st = libcall(gopt(res), [&] { o->he_dec(m.z, x.c->p, K.p.z, K.y.z, k); }); if (st != C_OK) fail("crash", "decryption raised an exception"); ev(zb(m.z)); checked(2);
    if (!(m == x.m)) fail("wrong-value", "a labeled ciphertext decrypts to %s, the program gives %s (k=%u)", zs(m).c_str(), zs(x.m).c_str(), k);
    mpz_add(v.z, x.c->a(), x.b.z); zmod2k(v, k); if (!(v == x.m)) fail("wrong-value", "masked part plus mask is %s, the program gives %s (k=%u)", zs(v).c_str(), zs(x.m).c_str(), k);
  };
  auto dec2 = [&](R2 &x, i64 res) {
    Z m(3), b = x.b; if (res % 3) { Z w; mpz_ui_pow_ui(w.z, 2, k); mpz_mul_si(w.z, w.z, res % 7 - 3); mpz_add(b.z, b.z, w.z); }      // the caller need not have reduced the masks' program
    CallStatus st = libcall(gopt(res), [&] { o->he_dec2(m.z, x.c.z, b.z, K.p.z, K.y.z, k); }); if (st != C_OK) fail("crash", "decryption raised an exception"); ev(zb(m.z)); checked();
    if (!(m == x.m)) fail("wrong-value", "a product ciphertext decrypts to %s, the program gives %s (k=%u)", zs(m).c_str(), zs(x.m).c_str(), k);
  };
  std::vector<Z> users;
  auto call = [&](i64 res, const std::function<void()> &f) { if (libcall(gopt(res), f) != C_OK) fail("crash", "an evaluation raised an exception"); };
  std::vector<std::pair<size_t, Step>> prog;
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; if (t.op != "soak") { prog.push_back({i, t}); continue; }
    cpu_limit(300); fault(F_STALL); Rng r(pos(t.arg(1)) + 3); u64 n = std::min<u64>(modn(t.arg(0), 80000), 3000); int one = t.arg(2) & 1 ? (int)r.below(9) : -1;      // a long program, perhaps mostly of one operation
    for (u64 q = 0; q < n; q++) { int o = q < 4 ? 0 : one >= 0 && r.pct(90) ? one : (int)r.below(9); Step u; u.op = he_ops[o]; u.a = {(i64)(q < 4 ? q : r.below(4)), (i64)r.below(o == 0 || o == 3 || o == 8 ? 1 << 20 : 4), (i64)r.below(o == 0 ? 1 << 20 : 4), (i64)r.below(4), (i64)r.below(100)}; prog.push_back({i, u}); if (q % 50 == 49) for (i64 k = 0; k < 4; k++) { u.op = "dec"; u.a[0] = k; prog.push_back({i, u}); u.op = "dec2"; prog.push_back({i, u}); } }
  }
  for (auto &st : prog) {
    size_t i = st.first; const Step &t = st.second; at_step(i, p.steps[i]); size_t d = modn(t.arg(0), 4), x = modn(t.arg(1), 4), y = modn(t.arg(2), 4), z = modn(t.arg(3), 4); i64 res = t.arg(4);
    sig(fnv(t.op.data(), t.op.size())); simtime(300);
    if (t.op == "rekey") { fault(F_REKEY); Plan q = p; q.cfg["libkey"] = 0; q.cfg["k"] = t.arg(0); q.cfg["bits"] = t.arg(1); q.cfg["key"] = t.arg(2); K = plan_key(l, q); k = K.k; sig(k); for (auto &v : a) v.set = false; for (auto &v : s) v.set = false; }
    else if (t.op == "enc") {
      Z m = zval(t.arg(1), k), lb = zval(t.arg(2), k), b; call(res, [&] { o->he_encrypt(a[d].c->p, rs.s, hc[z % 3]->p, b.z, m.z, K.y.z, K.N.z, lb.z, k); });
      a[d].m = m; a[d].b = b; a[d].set = true; if (mpz_sizeinbase(b.z, 2) > k) fail("mask-range", "a mask does not fit the message space"); dec1(a[d], res + 1);
    } else if (t.op == "add" || t.op == "sub") {
      if (!a[x].set || !a[y].set) continue; if (d == x || d == y) fault(F_STALEW); bool sb = t.op == "sub";
      call(res, [&] { (sb ? o->he_sub : o->he_add)(a[d].c->p, a[x].c->p, a[y].c->p, K.N.z, k); });
      Z m, b; (sb ? mpz_sub : mpz_add)(m.z, a[x].m.z, a[y].m.z); (sb ? mpz_sub : mpz_add)(b.z, a[x].b.z, a[y].b.z); zmod2k(m, k); zmod2k(b, k); a[d].m = m; a[d].b = b; a[d].set = true;
    } else if (t.op == "cmul") {
      size_t from = y; if (!a[from].set) continue; Z c = zval(t.arg(1), k); call(res, [&] { o->he_cmult(a[d].c->p, a[from].c->p, c.z, K.N.z, k); });
      Z m, b; mpz_mul(m.z, a[from].m.z, c.z); mpz_mul(b.z, a[from].b.z, c.z); zmod2k(m, k); zmod2k(b, k); a[d].m = m; a[d].b = b; a[d].set = true;
    } else if (t.op == "mult") {
      if (!a[x].set || !a[y].set) continue; call(res, [&] { o->he_mult(s[d].c.z, rs.s, a[x].c->p, a[y].c->p, K.y.z, K.N.z, k); });
      mpz_mul(s[d].m.z, a[x].m.z, a[y].m.z); mpz_mul(s[d].b.z, a[x].b.z, a[y].b.z); zmod2k(s[d].m, k); zmod2k(s[d].b, k); s[d].set = true;
    } else if (t.op == "mult3") {
      if (!a[x].set || !a[y].set || !a[z].set) continue; Z p12, p13, p23, e12, e13, e23;
      mpz_mul(p12.z, a[x].b.z, a[y].b.z); zmod2k(p12, k); mpz_mul(p13.z, a[x].b.z, a[z].b.z); zmod2k(p13, k); mpz_mul(p23.z, a[y].b.z, a[z].b.z); zmod2k(p23, k);
      jl_enc(l, e12, rs, p12, K); jl_enc(l, e13, rs, p13, K); jl_enc(l, e23, rs, p23, K);
      call(res, [&] { o->he_mult3(s[d].c.z, rs.s, a[x].c->p, a[y].c->p, a[z].c->p, e12.z, e13.z, e23.z, K.y.z, K.N.z, k); });
      mpz_mul(s[d].m.z, a[x].m.z, a[y].m.z); mpz_mul(s[d].m.z, s[d].m.z, a[z].m.z); mpz_mul(s[d].b.z, p12.z, a[z].b.z); zmod2k(s[d].m, k); zmod2k(s[d].b, k); s[d].set = true;
    } else if (t.op == "add2" || t.op == "sub2") {
      if (!s[x].set || !s[y].set) continue; bool sb = t.op == "sub2"; call(res, [&] { (sb ? o->he_sub2 : o->he_add2)(s[d].c.z, s[x].c.z, s[y].c.z, K.N.z); });
      Z m, b; (sb ? mpz_sub : mpz_add)(m.z, s[x].m.z, s[y].m.z); (sb ? mpz_sub : mpz_add)(b.z, s[x].b.z, s[y].b.z); zmod2k(m, k); zmod2k(b, k); s[d].m = m; s[d].b = b; s[d].set = true;
    } else if (t.op == "cmul2") {
      size_t from = y; if (!s[from].set) continue; Z c = zval(t.arg(1), k); call(res, [&] { o->he_cmult2(s[d].c.z, s[from].c.z, c.z, K.N.z); });
      Z m, b; mpz_mul(m.z, s[from].m.z, c.z); mpz_mul(b.z, s[from].b.z, c.z); zmod2k(m, k); zmod2k(b, k); s[d].m = m; s[d].b = b; s[d].set = true;
    } else if (t.op == "dec") { if (a[d].set) dec1(a[d], res); }
    else if (t.op == "dec2") { if (s[d].set) dec2(s[d], res); }
    else if (t.op == "abandon") {       // an evaluation given up half way; its result register is lost, the operands are not
      if (!a[x].set || !a[y].set || d == x || d == y) continue; fault(F_ABANDON); i64 st = (i64)res;
      switch (z) { case 0: libcall(gopt(3, st), [&] { o->he_mult(s[d].c.z, rs.s, a[x].c->p, a[y].c->p, K.y.z, K.N.z, k); }); s[d].set = false; break;
        case 1: libcall(gopt(3, st), [&] { o->he_add(a[d].c->p, a[x].c->p, a[y].c->p, K.N.z, k); }); a[d].set = false; break;
        case 2: { Bytes sv = hc[0]->save(); Z m(5), lb(9), b; libcall(gopt(3, st), [&] { o->he_encrypt(a[d].c->p, rs.s, hc[0]->p, b.z, m.z, K.y.z, K.N.z, lb.z, k); }); hc[0]->load(sv); a[d].set = false; break; }
        default: { Z m; libcall(gopt(3, st), [&] { o->he_dec(m.z, a[x].c->p, K.p.z, K.y.z, k); }); } }
      dec1(a[x], 2); dec1(a[y], 2);
    } else if (t.op == "user" && o->mu_keygen) {      // what the master key opens of a client's public key is the client's secret
      Z u(7), s(9), d; if (t.arg(1) >= 0) { fault(F_ABANDON); libcall(gopt(3, t.arg(1)), [&] { o->mu_keygen(u.z, s.z, rs.s, K.N.z, K.y.z, k); }); }
      call(t.arg(0), [&] { o->mu_keygen(u.z, s.z, rs.s, K.N.z, K.y.z, k); }); jl_dec(l, d, u, K); Z w = s; zmod2k(w, k); checked(2);
      if (mpz_sgn(s.z) < 0 || mpz_sizeinbase(s.z, 2) > 128) fail("wrong-key", "a client's secret does not fit 128 bits"); if (!(d == w)) fail("wrong-key", "a client's public key opens to %s, its secret is %s", zs(d).c_str(), zs(w).c_str());
      for (auto &v : users) if (v == s) fail("wrong-key", "two clients got the same secret"); users.push_back(s);
    } else if (t.op == "restart") { fault(F_RESTART); nd.restart(); for (auto &h : hc) { Bytes b = h->save(); h->load(b); } }
  }
  for (auto &x : a) if (x.set) dec1(x, 2);
  for (auto &x : s) if (x.set) dec2(x, 2);
  SH->nontrivial = 1;
}

// ================================================================ C14: masks
// "enc" label msgA msgB resA resB | "apart" labelA labelB msg res | "rekey" k bits key | "ckpt" | "restore" | "restart" | "abandon" tick
static Plan gen_c14(Rng &r, int tier) {
  Plan p; gen_key(r, p, tier); p.cfg["hk"] = r.below(1 << 20); p.cfg["alt"] = r.below(2); p.cfg["far"] = r.pct(40) ? 1 + r.below(3) : 0; int n = (int)r.range(3, tier ? 30 : 14);
  for (int i = 0; i < n; i++) {
    if (r.pct(10)) p.add("ckpt"); else if (r.pct(10)) p.add("restore"); else if (r.pct(8)) p.add("restart", {(i64)r.below(1000)});
    else if (r.pct(8)) p.add("abandon", {gen_tick(r), (i64)r.below(1 << 20)});
    else if (r.pct(12)) p.add("apart", {(i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(1000)});
    else if (r.pct(4)) p.add("rekey", {(i64)r.below(7), (i64)r.below(5), (i64)r.below(1 << 20)});
    else if (r.pct(4)) p.add("newgen", {(i64)r.below(1 << 20), (i64)r.below(1 << 20)});
    else p.add("enc", {r.pct(40) ? (i64)r.below(12) : (i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(1000), (i64)r.below(1000)});
  }
  p.add("enc", {5, 6, 7, 8, 9}); soak(r, p); return p;
}
static void exec_c14(const Plan &p) {
  Lib *l = lib(he_lib(p)), *l2 = p.get("alt") && has_lib("lhe.alt") && l->name == "lhe" ? lib("lhe.alt") : l; const Ops *o = l->o, *o2 = l2->o; Node A, B; A.enter(l); /* the other party may run another build of the same sources */ sig(l != l2); Plan q = p; q.cfg["libkey"] = 0; Key K = plan_key(l, q); unsigned k = K.k; sig(k);
  Bytes hk = content(p.get("hk"), 16), hv = content(p.get("hk") + 1, 16); std::vector<Bytes> hkh = {hk}, hvh = {hv}; Hc ha(o, hk, hv, 3), hb(o2, hk, hv, pos(p.get("res"))); RS ra(1), rb(2);
  Ct ca(o), cb(o2); Z ba, bb; Bytes ck = ha.save(); size_t ckpos = 0;
  i64 far = (i64)modn(p.get("far"), 4); struct E { Z mask[2]; i64 label[2]; Key K; }; std::vector<E> log; bool soaked = false;
  auto enc = [&](Node &n, Lib *l, Hc &h, RS &rs, Ct &c, Z &b, const Z &m, const Z &lb, i64 res, i64 stop = -1) {
    n.enter(l); CallOpt co = gopt(res, stop); co.depth = 4096 + pos(res) % 7 * 1024; if (pos(res) % 5 == 3) co.echo = zb(lb.z); 
    CallStatus st; auto call = [&] { CUR = nullptr; st = libcall(co, [&] { l->o->he_encrypt(c.p, rs.s, h.p, b.z, (void *)m.z, K.y.z, K.N.z, (void *)lb.z, k); }); };
    if (&n == &B && far) run_far(call, (int)far); else call();
    if (st == C_OK) { Z v; mpz_add(v.z, c.a(), b.z); zmod2k(v, k); checked(); Z mm = m; zmod2k(mm, k); if (!(v == mm)) fail("mask-mismatch", "masked part plus mask is %s for message %s", zs(v).c_str(), zs(m).c_str());
      Z d; jl_dec(l, d, [&] { Z t; mpz_set(t.z, c.beta()); return t; }(), K); checked(); Z bm = b; zmod2k(bm, k); if (!(d == bm)) fail("mask-mismatch", "the encrypted mask is %s, the mask used %s", zs(d).c_str(), zs(b).c_str()); }
    return st; };
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); sig(fnv(t.op.data(), t.op.size()));
    if (t.op == "enc" || t.op == "apart") {
      bool apart = t.op == "apart"; i64 la = t.arg(0), lb = apart ? t.arg(1) : la; i64 x = apart ? t.arg(2) : t.arg(1), y = t.arg(2), ra1 = t.arg(3), rb1 = apart ? t.arg(3) + 1 : t.arg(4);
      enc(A, l, ha, ra, ca, ba, zval(x, k), zval(la, k), ra1); enc(B, l2, hb, rb, cb, bb, zval(y, k), zval(lb, k), rb1); simtime(400);
      if (!apart) { checked(); if (!(ba == bb)) fail("masks-differ", "label %s at position %zu: one party derives the mask %s, the other %s", zs(zval(la, k)).c_str(), log.size(), zs(ba).c_str(), zs(bb).c_str()); }
      E e; e.mask[0] = ba; e.mask[1] = bb; e.label[0] = la; e.label[1] = lb; e.K = K; log.push_back(e); ev(zb(ba.z));
    } else if (t.op == "soak") { cpu_limit(300);        // the shared generator goes a long way
      u64 n = std::min<u64>(modn(t.arg(0), 80000), k > 64 ? 1000 : 8000); fault(F_STALL);
      for (u64 j = 0; j < n; j++) {
        i64 lb = t.arg(2) & 1 ? (i64)(j % 64) : (i64)(pos(t.arg(1)) + j * 8); enc(A, l, ha, ra, ca, ba, zval((i64)j + 3, k), zval(lb, k), (i64)(j % 5)); enc(B, l2, hb, rb, cb, bb, zval((i64)j + 9, k), zval(lb, k), (i64)(j % 7)); simtime(100); checked();
        if (!(ba == bb)) fail("masks-differ", "label %s at position %zu: one party derives the mask %s, the other %s", zs(zval(lb, k)).c_str(), log.size() + (size_t)j, zs(ba).c_str(), zs(bb).c_str());
      }
      log.clear(); ck = ha.save(); ckpos = 0; soaked = true;
    } else if (t.op == "rekey") { fault(F_REKEY); q.cfg["k"] = t.arg(0); q.cfg["bits"] = t.arg(1); q.cfg["key"] = t.arg(2); K = plan_key(l, q); k = K.k; sig(k); }
    else if (t.op == "newgen") { fault(F_REKEY); hk = related(hkh, t.arg(0), 16); hv = related(hvh, t.arg(1), 16); hkh.push_back(hk); hvh.push_back(hv); A.enter(l); ha.init(hk, hv); B.enter(l2); hb.init(hk, hv); log.clear(); ck = ha.save(); ckpos = 0; soaked = false; }
    else if (t.op == "ckpt") { ck = ha.save(); ckpos = log.size(); fault(F_CHECKPOINT); }
    else if (t.op == "restore" || t.op == "restart") {        // roll back, or lose everything and start over from key and IV, and go through the same labels again
      bool all = t.op == "restart"; if (all && soaked) continue; if (all) { fault(F_RESTART); B.restart(); B.enter(l2); hb.init(hk, hv); } else { fault(F_CHECKPOINT); ha.load(ck); }
      Key keep = K; for (size_t j = all ? 0 : ckpos; j < log.size(); j++) { K = log[j].K; k = K.k; Z m = zval((i64)(j * 31 + 6), k); Z &b = all ? bb : ba;
        if (all) enc(B, l2, hb, rb, cb, bb, m, zval(log[j].label[1], k), t.arg(0) + (i64)j); else enc(A, l, ha, ra, ca, ba, m, zval(log[j].label[0], k), (i64)j * 3);
        checked(); if (!(b == log[j].mask[all])) fail("masks-differ", "position %zu after %s: mask %s, before %s", j, all ? "starting over" : "a restored checkpoint", zs(b).c_str(), zs(log[j].mask[all]).c_str()); }
      K = keep; k = K.k;
    } else if (t.op == "abandon") { fault(F_ABANDON); Bytes sv = hb.save(); enc(B, l2, hb, rb, cb, bb, zval(t.arg(1), k), zval(t.arg(1) + 1, k), 3, (i64)pos(t.arg(0))); hb.load(sv); }
  }
  SH->nontrivial = 1;
}

// ================================================================ C16: randomness
// "enc" v | "henc" v label | "mult" | "mult3" | "abandon" tick v what | "env" v | "keygen" seedA seedB | "keygen_default" | "twin" v
static Plan gen_c16(Rng &r, int tier) {
  Plan p; gen_key(r, p, tier); p.cfg["rs"] = r.below(1 << 20); p.cfg["hk"] = r.below(1 << 20); int n = (int)r.range(4, tier ? 40 : 20);
  for (int i = 0; i < n; i++) switch (r.below(12)) {
    case 0: p.add("env", {(i64)r.below(1 << 20)}); break;
    case 1: p.add("abandon", {gen_tick(r) / 16, (i64)r.below(8), (i64)r.below(3)}); break;
    case 2: case 3: p.add("henc", {(i64)r.below(8), (i64)r.below(8), (i64)r.below(100)}); break;
    case 4: p.add("mult", {(i64)r.below(100)}); break;
    case 5: p.add("mult3", {(i64)r.below(100)}); break;
    case 6: p.add("restart"); break;
    default: p.add("enc", {(i64)r.below(8), 0, (i64)r.below(100)});
  }
  if (r.pct(25)) p.add("keygen", {(i64)r.below(1 << 20), (i64)r.below(1 << 20), (i64)r.below(3)});
  if (r.pct(4)) p.add("keygen_default", {(i64)r.below(3)});
  soak(r, p); return p;
}
static void exec_c16(const Plan &p) {
  Lib *l = lib(p.get("lib") && has_lib("lhe") ? he_lib(p) : "jl"); const Ops *o = l->o; Node nd; nd.enter(l); Plan q = p; q.cfg["libkey"] = 0; Key K = plan_key(l, q); unsigned k = K.k; sig(mix(k, o->kind)); RS rs(pos(p.get("rs")) + 1);
  u64 env = 1; auto shake = [&] { env = mix(env, 5); sim_clock_set(env % 4000000000000000ull); sim_entropy_set(env); sim_gmp_default_seed(env | 1); fault(F_CLOCK); fault(F_ENTROPY); };
  std::vector<std::pair<Z, std::string>> seen; Z yi; mpz_invert(yi.z, K.y.z, K.N.z);
  auto fresh = [&](const Z &c, const Z &m, const char *what) {           // what the generator put into this ciphertext: x^(2^k)
    Z r; mpz_powm(r.z, yi.z, m.z, K.N.z); mpz_mul(r.z, r.z, c.z); mpz_mod(r.z, r.z, K.N.z); checked(); ev(zb(c.z));
    for (auto &s : seen) if (s.first == r) fail("randomness-reused", "%s used the same randomness as an earlier %s on the same running generator", what, s.second.c_str());
    if (mpz_cmp_ui(r.z, 1) == 0 || mpz_sgn(r.z) == 0) fail("no-randomness", "%s used no randomness", what);
    seen.push_back({r, what});
  };
  Bytes hk = content(p.get("hk"), 16), hv = content(p.get("hk") + 1, 16); std::unique_ptr<Hc> hc; std::unique_ptr<Ct> c1, c2; bool he = o->kind == K_LHE;
  Z b1, b2; if (he) { hc.reset(new Hc(o, hk, hv, 3)); c1.reset(new Ct(o)); c2.reset(new Ct(o)); Z m(3), lb(4); libcall(gopt(0), [&] { o->he_encrypt(c1->p, rs.s, hc->p, b1.z, m.z, K.y.z, K.N.z, lb.z, k); }); libcall(gopt(0), [&] { o->he_encrypt(c2->p, rs.s, hc->p, b2.z, m.z, K.y.z, K.N.z, lb.z, k); }); }
  Z lastmul, last3; std::vector<Z> users;
  for (size_t i = 0; i < p.steps.size(); i++) {
    const Step &t = p.steps[i]; at_step(i, t); sig(fnv(t.op.data(), t.op.size()) + modn(t.arg(0), 8)); simtime(250);
    if (t.op == "enc" || (!he && t.op == "henc")) {
      Z m = zval(t.arg(0), k), c, c2; RS copy(rs); if (jl_enc(l, c, rs, m, K, gopt(t.arg(2))) != C_OK) fail("crash", "exception"); fresh(c, m, "encryption");
      shake(); jl_enc(l, c2, copy, m, K, gopt(t.arg(2) + 1)); checked(); if (!(c == c2)) fail("not-from-generator", "equal generator states give different ciphertexts of %s", zs(m).c_str());
      // and both copies have advanced alike
      Z n1, n2; RS a(rs), b(copy); mpz_urandomb(n1.z, a.s, 128); mpz_urandomb(n2.z, b.s, 128); checked(); if (!(n1 == n2)) fail("not-from-generator", "equal generator states part after encrypting the same message");
    } else if (t.op == "henc") {
      Z m = zval(t.arg(0), k), lb = zval(t.arg(1), k), b, bb; RS copy(rs); Bytes sv = hc->save(); Ct ca(o), cb(o);
      libcall(gopt(t.arg(2)), [&] { o->he_encrypt(ca.p, rs.s, hc->p, b.z, m.z, K.y.z, K.N.z, lb.z, k); }); Z be; mpz_set(be.z, ca.beta()); fresh(be, b, "labeled encryption");
      Bytes sv2 = hc->save(); hc->load(sv); shake(); libcall(gopt(t.arg(2) + 1), [&] { o->he_encrypt(cb.p, copy.s, hc->p, bb.z, m.z, K.y.z, K.N.z, lb.z, k); }); hc->load(sv2); checked();
      if (mpz_cmp(ca.beta(), cb.beta()) || mpz_cmp(ca.a(), cb.a()) || !(b == bb)) fail("not-from-generator", "equal generator states give different labeled ciphertexts");
    } else if (t.op == "mult" && o->mu_keygen && modn(t.arg(0), 3) == 1) {
      Z u, s, u2, s2; RS copy(rs); libcall(gopt(t.arg(0)), [&] { o->mu_keygen(u.z, s.z, rs.s, K.N.z, K.y.z, k); }); shake(); libcall(gopt(t.arg(0) + 1), [&] { o->mu_keygen(u2.z, s2.z, copy.s, K.N.z, K.y.z, k); }); checked();
      if (!(u == u2) || !(s == s2)) fail("not-from-generator", "equal generator states give different client keys"); for (auto &v : users) if (v == s) fail("randomness-reused", "two clients got the same secret"); users.push_back(s); fresh(u, s, "client key");
    } else if (t.op == "mult" && he) {
      Z r1, r2; RS copy(rs); libcall(gopt(t.arg(0)), [&] { o->he_mult(r1.z, rs.s, c1->p, c2->p, K.y.z, K.N.z, k); }); shake(); libcall(gopt(t.arg(0) + 1), [&] { o->he_mult(r2.z, copy.s, c1->p, c2->p, K.y.z, K.N.z, k); }); checked(2);
      if (!(r1 == r2)) fail("not-from-generator", "equal generator states give different products"); if (r1 == lastmul) fail("randomness-reused", "two products on a running generator are the same ciphertext"); lastmul = r1; ev(zb(r1.z));
      // the same product without fresh randomness: x^(2^k) is what is left
      Z det, e, m12, w; mpz_mul(m12.z, c1->a(), c2->a()); zmod2k(m12, k); mpz_powm(det.z, c2->beta(), c1->a(), K.N.z); mpz_powm(e.z, c1->beta(), c2->a(), K.N.z); mpz_mul(det.z, det.z, e.z); mpz_mod(det.z, det.z, K.N.z); mpz_invert(w.z, det.z, K.N.z); mpz_mul(w.z, w.z, r1.z); mpz_mod(w.z, w.z, K.N.z); fresh(w, m12, "product");
    } else if (t.op == "mult3" && he) {
      Z r1, r2, e1(4), e2(9), e3(25); RS copy(rs); libcall(gopt(t.arg(0)), [&] { o->he_mult3(r1.z, rs.s, c1->p, c2->p, c1->p, e1.z, e2.z, e3.z, K.y.z, K.N.z, k); }); shake(); libcall(gopt(t.arg(0) + 1), [&] { o->he_mult3(r2.z, copy.s, c1->p, c2->p, c1->p, e1.z, e2.z, e3.z, K.y.z, K.N.z, k); }); checked(2);
      if (!(r1 == r2)) fail("not-from-generator", "equal generator states give different products"); if (r1 == last3) fail("randomness-reused", "two products on a running generator are the same ciphertext"); last3 = r1; ev(zb(r1.z));
    } else if (t.op == "abandon") {
      fault(F_ABANDON); Z c, m = zval(t.arg(1), k); i64 st = (i64)pos(t.arg(0)); CallStatus s;
      if (he && modn(t.arg(2), 3) == 1) { Bytes sv = hc->save(); Ct ca(o); Z b, lb(7); libcall(gopt(2, st), [&] { o->he_encrypt(ca.p, rs.s, hc->p, b.z, m.z, K.y.z, K.N.z, lb.z, k); }); hc->load(sv); Z be; mpz_set(be.z, ca.beta()); if (mpz_sgn(be.z)) { Z r; (void)r; } }
      else { s = jl_enc(l, c, rs, m, K, gopt(2, st)); if (s == C_OK) fresh(c, m, "encryption"); else if (mpz_sgn(c.z)) { /* what an interrupted call left behind counts too */ Z r; mpz_powm(r.z, yi.z, m.z, K.N.z); mpz_mul(r.z, r.z, c.z); mpz_mod(r.z, r.z, K.N.z); if (mpz_cmp_ui(r.z, 1)) { bool dup = false; for (auto &x : seen) dup = dup || x.first == r; if (!dup) seen.push_back({r, "interrupted encryption"}); } } }
    } else if (t.op == "soak") { cpu_limit(300);       // very many encryptions on one generator: no randomness comes back
      u64 n = std::min<u64>(modn(t.arg(0), 80000), k > 64 ? 3000 : 80000); std::set<Bytes> was; for (auto &s : seen) was.insert(zb(s.first.z)); i64 what = he ? (i64)modn(t.arg(2), 3) : 0; Z yk; fault(F_STALL);
      std::vector<std::pair<Z, Z>> ms; for (i64 v = 0; v < 8; v++) { Z m = zval(v, k), w; mpz_powm(w.z, yi.z, m.z, K.N.z); ms.push_back({m, w}); }
      for (u64 q = 0; q < n; q++) {
        Z c, r; auto &mw = ms[q % 8]; simtime(100);
        if (what == 0) { if (jl_enc(l, c, rs, mw.first, K, gopt((i64)(q % 3))) != C_OK) fail("crash", "exception"); mpz_mul(r.z, c.z, mw.second.z); }
        else if (what == 1) { Ct ca(o); Z b, lb(q % 16); libcall(gopt((i64)(q % 3)), [&] { o->he_encrypt(ca.p, rs.s, hc->p, b.z, mw.first.z, K.y.z, K.N.z, lb.z, k); }); mpz_powm(r.z, yi.z, b.z, K.N.z); mpz_mul(r.z, r.z, ca.beta()); }
        else { libcall(gopt((i64)(q % 3)), [&] { o->he_mult(r.z, rs.s, c1->p, c2->p, K.y.z, K.N.z, k); }); }
        mpz_mod(r.z, r.z, K.N.z); checked(); if (!was.insert(zb(r.z)).second) fail("randomness-reused", "operation %llu of many used the same randomness as an earlier one on the same running generator", (unsigned long long)q);
      }
    } else if (t.op == "env") { env = mix(env, t.arg(0)); shake(); }
    else if (t.op == "restart") { fault(F_RESTART); nd.restart(); nd.enter(l); }
    else if (t.op == "keygen") {
      unsigned kk = 32, bits = 128 + 16 * (unsigned)modn(t.arg(2), 3); u64 s1 = pos(t.arg(0)) * 2 + 1, s2 = pos(t.arg(1)) * 2 + 1; if (s1 == s2) s2 += 2; shake(); Key a = lib_key(l, s1, kk, bits, true, 3); shake(); Key b = lib_key(l, s2, kk, bits, false, 5); Z g; mpz_gcd(g.z, a.N.z, b.N.z); checked(2);
      if (mpz_cmp_ui(g.z, 1)) fail("keys-related", "two key generations from differently seeded generators share a factor of N"); if (a.y == b.y) fail("keys-related", "two key generations share y"); ev(zb(a.N.z));
    } else if (t.op == "keygen_default") {
      unsigned bits = 128 + 16 * (unsigned)modn(t.arg(0), 3); Key a, b; shake(); sim_gmp_default_seed(0); CallOpt c = gopt(0); c.work = 1 << 14; libcall(c, [&] { o->jl_keygen(a.N.z, a.y.z, a.p.z, 32, bits); });
      shake(); sim_gmp_default_seed(0); nd.restart(); nd.enter(l); libcall(c, [&] { o->jl_keygen(b.N.z, b.y.z, b.p.z, 32, bits); }); checked(); Z g; mpz_gcd(g.z, a.N.z, b.N.z);
      if (mpz_cmp_ui(g.z, 1)) fail("keygen-repeats", "two key generations, with clock and entropy changed in between, return the same key (generator left at its default seed)");
    }
  }
  SH->nontrivial = 1;
}
extern const Scenario gmp_scenarios[] = {{"C12", gen_c12, exec_c12}, {"C13", gen_c13, exec_c13}, {"C14", gen_c14, exec_c14}, {"C16", gen_c16, exec_c16}, {0, 0, 0}};
#else
std::unique_ptr<Unit> make_gmp_unit(Lib *, Node *, u64, u64) { return nullptr; }
extern const Scenario gmp_scenarios[] = {{0, 0, 0}};
#endif
