// Driver of the simulator: runs plans in forked children, minimises what
// fails, replays files.
//   sim run PROP TIER SEED START STRIDE COUNT SECONDS OUTBASE REPLAYDIR
//   sim replay FILE [-v]     sim plan PROP TIER SEED INDEX
#include "scen.h"
#include <cstdlib>
#include <ctime>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/syscall.h>
void gmp_seam(); void sim_tsc();
extern const Scenario net_scenarios[], unit_scenarios[], gmp_scenarios[], link_scenarios[];
const Scenario *scenario(const std::string &id) {
  for (auto t : {net_scenarios, unit_scenarios, gmp_scenarios, link_scenarios}) for (auto s = t; s->id; s++) if (id == s->id) return s;
  return nullptr;
}
static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
struct Result { bool bad = false, internal = false; std::string cls, msg; int step = 0; u64 hash = 0, sig = 0; bool nontrivial = false; };
static double CPUMAX;
static void on_xcpu(int) { static int more = 2; if ((CUR && CUR->in_lib) || !more--) { signal(SIGXCPU, SIG_DFL); raise(SIGXCPU); } else cpu_limit(30); }      // the simulator itself may take more time, within reason
static Result attempt(const Plan &p, bool verbose) {
  const Scenario *sc = scenario(p.prop); if (!sc) { fprintf(stderr, "no scenario %s\n", p.prop.c_str()); exit(2); }
  memset((void *)SH, 0, sizeof *SH);
  fflush(0); pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    struct rlimit rl = {30, 400};     // calls on huge inputs raise the first
    signal(SIGXCPU, on_xcpu); setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    VERBOSE = verbose; capture_output(); sim_tsc();
    run_on_thread([&] { sc->exec(p); });
    SH->done = 1; _exit(0);
  }
  int st = 0; struct rusage ru; while (wait4(pid, &st, 0, &ru) < 0) {}
  CPUMAX = std::max(CPUMAX, ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1e6);
  Result r; r.step = SH->step; r.hash = SH->hash; r.sig = SH->sig; r.nontrivial = SH->nontrivial;
  if (SH->done == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  r.bad = true; char b[1100];
  if (SH->done == 2) { r.cls = SH->cls; snprintf(b, sizeof b, "%s (step %d, %s)", SH->msg, SH->step, SH->op); }
  else if (WIFSIGNALED(st)) { int s = WTERMSIG(st); r.cls = s == SIGXCPU || s == SIGKILL ? "hang" : "crash"; snprintf(b, sizeof b, "the process %s in step %d (%s)", r.cls == "hang" ? "ran out of processor time" : ("died of signal " + std::to_string(s)).c_str(), SH->step, SH->op); if (s == SIGKILL || s == SIGTERM) r.internal = true; }
  else { r.cls = "crash"; snprintf(b, sizeof b, "the process exited with status %d in step %d (%s)", WEXITSTATUS(st), SH->step, SH->op); if (WEXITSTATUS(st) == 9) r.internal = true; }
  r.msg = b; return r;
}
static u64 run_seed(u64 base, const std::string &prop, u64 idx) { return mix(mix(base + 1, fnv(prop.data(), prop.size())), idx * 2654435761u + 17); }
static Plan make(const std::string &prop, int tier, u64 base, u64 idx) {
  const Scenario *sc = scenario(prop); if (!sc) { fprintf(stderr, "no scenario %s\n", prop.c_str()); exit(2); }
  GEN_INDEX = idx; u64 s = run_seed(base, prop, idx); Rng r(s); Plan p = sc->gen(r, tier); p.prop = prop; p.seed = s >> 16; return p;
}
static Plan minimise(Plan p, Result &res) {
  bool hang = res.cls == "hang" && SH->done != 2; double end = now() + 25; int left = hang ? 1 : 1500; const std::string cls = res.cls;
  auto ok = [&](const Plan &q) { if (left-- <= 0 || now() > end) return false; Result r = attempt(q, false); if (r.bad && r.cls == cls) { res = r; return true; } return false; };
  if (res.step >= 0 && res.step + 1 < (int)p.steps.size()) { Plan q = p; q.steps.resize(res.step + 1); if (ok(q)) p = q; }
  for (size_t n = 2; p.steps.size() > 1;) {                        // drop steps
    size_t ch = (p.steps.size() + n - 1) / n; bool any = false;
    for (size_t at = 0; at < p.steps.size();) { Plan q = p; q.steps.erase(q.steps.begin() + at, q.steps.begin() + std::min(q.steps.size(), at + ch)); if (!q.steps.empty() && ok(q)) { p = q; any = true; } else at += ch; }
    if (!any) { if (ch <= 1) break; n = std::min(n * 2, p.steps.size()); } else n = std::max<size_t>(2, std::min(n, p.steps.size()));
    if (left <= 0 || now() > end) break;
  }
  auto shrink = [&](i64 &v) { i64 o = v; for (i64 c : {(i64)0, (i64)1, o / 2, o - 1}) { if (c == v || (c < 0) != (v < 0)) continue; if (llabs(c) >= llabs(v)) continue; i64 k = v; v = c; if (ok(p)) return true; v = k; } return false; };
  for (int round = 0; round < 4 && left > 0 && now() < end; round++) {
    bool any = false;
    for (auto &s : p.steps) for (auto &v : s.a) if (v) any |= shrink(v);
    for (auto &c : p.cfg) if (c.second) any |= shrink(c.second);
    if (!any) break;
  }
  if (hang) return p;
  Result r = attempt(p, false); if (r.bad) res = r;
  return p;
}
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static bool known(const std::string &cls) { const char *k = getenv("SIM_KNOWN"); if (!k) return false; std::string s = std::string(",") + k + ","; return s.find("," + cls + ",") != std::string::npos; }
static std::string slurp(const char *f) { std::string s; FILE *h = fopen(f, "r"); if (!h) { perror(f); exit(2); } char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }

int main(int argc, char **argv) {
#ifndef __aarch64__
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
#endif
  std::string cmd = argc > 1 ? argv[1] : "";
  gmp_seam();
  std::string st = ref::selftest(); if (!st.empty()) { fprintf(stderr, "reference self-test failed: %s\n", st.c_str()); return 2; }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  load_all_libs();
  if (cmd == "plan" && argc > 5) { printf("%s", make(argv[2], atoi(argv[3]), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10)).text().c_str()); return 0; }
  if (cmd == "replay" && argc > 2) {
    Plan p; if (!p.parse(slurp(argv[2]))) { fprintf(stderr, "not a replay file\n"); return 2; }
    Result r = attempt(p, argc > 3); if (r.internal) return 2;
    printf("%s hash=%016llx sig=%016llx %s\n", r.bad ? ("FAILS class=" + r.cls).c_str() : "HOLDS", (unsigned long long)r.hash, (unsigned long long)r.sig, r.msg.c_str());
    return r.bad ? 1 : 0;
  }
  if (cmd == "run" && argc > 10) {
    std::string prop = argv[2]; int tier = atoi(argv[3]); u64 base = strtoull(argv[4], 0, 10), start = strtoull(argv[5], 0, 10), stride = strtoull(argv[6], 0, 10), count = strtoull(argv[7], 0, 10); double end = now() + atof(argv[8]); std::string out = argv[9], rdir = argv[10];
    FILE *lines = fopen((out + ".runs").c_str(), "w"); if (!lines) { perror("out"); return 2; }
    u64 runs = 0, nt = 0, f[F_N] = {0}, simt = 0, ticks = 0, calls = 0, checks = 0; std::string viol; double t0 = now(); int nviol = 0; std::set<std::string> seen; std::string samples; int ns = 0; bool budget = false;
    for (u64 k = 0; k < count; k++) {
      if (now() > end) { budget = true; break; }
      u64 idx = start + k * stride; Plan p = make(prop, tier, base, idx);
      Result r = attempt(p, false); if (r.internal) { fprintf(stderr, "internal error in run %llu: %s\n", (unsigned long long)idx, r.msg.c_str()); return 2; }
      runs++; nt += r.nontrivial; for (int i = 0; i < F_N; i++) f[i] += SH->faults[i]; simt += SH->simtime; ticks += SH->ticks; calls += SH->calls; checks += SH->checks;
      fprintf(lines, "%llu %016llx %016llx %d\n", (unsigned long long)idx, (unsigned long long)r.hash, (unsigned long long)r.sig, r.nontrivial ? 1 : 0);
      if (r.nontrivial && ns < 2) { samples += (ns++ ? "," : "") + jstr("run " + std::to_string(idx) + "\n" + p.text()); }
      if (r.bad && !seen.count(r.cls)) {
        bool hang = r.cls == "hang" && SH->done != 2;      // 30 s of processor time each: no room for many attempts
        seen.insert(r.cls); Result r2 = hang ? r : attempt(p, false);
        bool stable = r2.bad && r2.cls == r.cls && r2.hash == r.hash && r2.step == r.step;
        Plan m = known(r.cls) ? p : minimise(p, r); std::string file = rdir + "/" + prop + "-" + r.cls + "-" + std::to_string(base) + "-" + std::to_string(idx) + ".replay";
        FILE *h = fopen(file.c_str(), "w"); if (!h) { perror("replay"); return 2; }
        fprintf(h, "# property %s violated: %s\n# %s\n# found with VERIF_SEED=%llu, run %llu (%zu steps), minimised to %zu steps\n%s", prop.c_str(), r.cls.c_str(), r.msg.c_str(), (unsigned long long)base, (unsigned long long)idx, p.steps.size(), m.steps.size(), m.text().c_str()); fclose(h);
        viol += (viol.empty() ? "" : ",") + std::string("{\"class\":") + jstr(r.cls) + ",\"msg\":" + jstr(r.msg) + ",\"replay\":" + jstr(file) + ",\"index\":" + std::to_string(idx) + ",\"stable\":" + (stable ? "true" : "false") + ",\"known\":" + (known(r.cls) ? "true" : "false") + "}";
        if (!known(r.cls) && ++nviol >= 1) break;
      }
    }
    fclose(lines);
    FILE *h = fopen((out + ".json").c_str(), "w"); if (!h) { perror("out"); return 2; }
    fprintf(h, "{\"runs\":%llu,\"nontrivial\":%llu,\"simtime_us\":%llu,\"ticks\":%llu,\"calls\":%llu,\"checks\":%llu,\"wall\":%.3f,\"max_cpu_s\":%.2f,\"cut\":%s,\"violations\":[%s],\"samples\":[%s],\"faults\":{", (unsigned long long)runs, (unsigned long long)nt, (unsigned long long)simt, (unsigned long long)ticks, (unsigned long long)calls, (unsigned long long)checks, now() - t0, CPUMAX, budget ? "true" : "false", viol.c_str(), samples.c_str());
    bool first = true; for (int i = 0; i < F_N; i++) if (f[i]) { fprintf(h, "%s\"%s\":%llu", first ? "" : ",", fault_names[i], (unsigned long long)f[i]); first = false; }
    fprintf(h, "}}\n"); fclose(h);
    return nviol ? 1 : 0;
  }
  fprintf(stderr, "usage: sim run|replay|plan ...\n"); return 2;
}
