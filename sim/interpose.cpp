// Everything a library call could learn from, or leave in, the world outside:
// clocks, entropy, files. Calls made by the toolbox meet these stand-ins;
// calls made by the simulator itself go to the real functions.
#include "core.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <cstdarg>
static u64 clk = 1600000000000000ull, ent = 1, gseed = 1;
u64 ENTROPY_USES, CLOCK_USES, FILE_WRITES;
void sim_clock_set(u64 us) { clk = us; }
void sim_entropy_set(u64 s) { ent = s; }
void sim_gmp_default_seed(u64 s) { gseed = s; }
static bool inlib() { return CUR && CUR->in_lib; }
static u64 entropy() { ENTROPY_USES++; ent = ent * 6364136223846793005ull + 1442695040888963407ull; return mix(ent, 77); }
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static int devnull_fd() { return (int)syscall(SYS_memfd_create, "sink", 0); }
static bool is_entropy(const char *p) { return p && !strncmp(p, "/dev/", 5) && strstr(p, "random"); }
static int entropy_fd() { int f = devnull_fd(); u64 b[512]; for (auto &x : b) x = entropy(); syscall(SYS_write, f, b, sizeof b); lseek(f, 0, SEEK_SET); return f; }
// the processor's own counter, read with rdtsc or rdtscp, is the simulated clock too
#ifdef __x86_64__
#include <signal.h>
#include <ucontext.h>
#include <sys/prctl.h>
static void on_segv(int s, siginfo_t *, void *u) {
  greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs; const uint8_t *ip = (const uint8_t *)g[REG_RIP];
  if (ip >= (const uint8_t *)0x1000 && g[REG_TRAPNO] == 13 && ip[0] == 0x0f && (ip[1] == 0x31 || (ip[1] == 0x01 && ip[2] == 0xf9))) { CLOCK_USES++; clk += 1; u64 v = clk * 2400; g[REG_RAX] = (uint32_t)v; g[REG_RDX] = v >> 32; if (ip[1] == 0x01) g[REG_RCX] = 0; g[REG_RIP] += ip[1] == 0x31 ? 2 : 3; return; }
  signal(s, SIG_DFL);
}
void sim_tsc() { struct sigaction a = {}; a.sa_sigaction = on_segv; a.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &a, 0); prctl(PR_SET_TSC, PR_TSC_SIGSEGV); }
#else
void sim_tsc() {}
#endif
extern "C" {
time_t time(time_t *t) noexcept { time_t v; if (inlib()) { CLOCK_USES++; v = clk / 1000000; } else { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); v = s.tv_sec; } if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec *s) noexcept { if (inlib()) { CLOCK_USES++; clk += 1; s->tv_sec = clk / 1000000; s->tv_nsec = clk % 1000000 * 1000; return 0; } return (int)syscall(SYS_clock_gettime, c, s); }
int gettimeofday(struct timeval *t, void *) noexcept { if (inlib()) { CLOCK_USES++; clk += 1; t->tv_sec = clk / 1000000; t->tv_usec = clk % 1000000; return 0; } struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
clock_t clock() noexcept { if (inlib()) { CLOCK_USES++; return clk++; } return real<clock_t (*)()>("clock")(); }
int rand() noexcept { if (inlib()) return entropy() & 0x7fffffff; return real<int (*)()>("rand")(); }
long random() noexcept { if (inlib()) return entropy() & 0x7fffffff; return real<long (*)()>("random")(); }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (inlib()) { for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = entropy(); return n; } return syscall(SYS_getrandom, b, n, f); }
int getentropy(void *b, size_t n) { if (inlib()) { for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = entropy(); return 0; } return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; }
int rand_r(unsigned *s) noexcept { if (inlib()) return entropy() & 0x7fffffff; return real<int (*)(unsigned *)>("rand_r")(s); }
long lrand48() noexcept { if (inlib()) return entropy() & 0x7fffffff; return real<long (*)()>("lrand48")(); }
long mrand48() noexcept { if (inlib()) return (int)entropy(); return real<long (*)()>("mrand48")(); }
double drand48() noexcept { if (inlib()) return (entropy() >> 12) / 4503599627370496.0; return real<double (*)()>("drand48")(); }
uint32_t arc4random() noexcept { return (uint32_t)entropy(); }
void arc4random_buf(void *b, size_t n) noexcept { for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = entropy(); }
pid_t getpid() noexcept { if (inlib()) return 300 + (pid_t)(mix(ent, 3) % 30000); return (pid_t)syscall(SYS_getpid); }
unsigned _ZNSt13random_device9_M_getvalEv(void *) { return (unsigned)entropy(); }
int open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
  if (inlib()) { if (is_entropy(p)) return entropy_fd(); if ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)) { FILE_WRITES++; return devnull_fd(); } }
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); return open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); if (inlib()) return open(p, fl, m); return (int)syscall(SYS_openat, d, p, fl, m); }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *fopen(const char *p, const char *m) {
  if (inlib()) { if (is_entropy(p)) return fdopen(entropy_fd(), "r"); if (m[0] != 'r' || strchr(m, '+')) { FILE_WRITES++; return fdopen(devnull_fd(), "w+"); } }
  return real<FILE *(*)(const char *, const char *)>("fopen")(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
ssize_t write(int fd, const void *b, size_t n) { if (inlib() && fd > 2) { FILE_WRITES++; return n; } return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (inlib() && fd > 2) { FILE_WRITES++; ssize_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; return t; } return syscall(SYS_writev, fd, v, n); }
ssize_t send(int, const void *, size_t n, int) { FILE_WRITES++; return n; }
ssize_t sendto(int, const void *, size_t n, int, const struct sockaddr *, unsigned) { FILE_WRITES++; return n; }
void vsyslog(int, const char *, va_list) { FILE_WRITES++; }
void syslog(int, const char *, ...) { FILE_WRITES++; }
#ifdef HAVE_GMP
struct gmp_rs;
void __gmp_randseed_ui(void *, unsigned long);
void __gmp_randinit_mt(void *s) { real<void (*)(void *)>("__gmp_randinit_mt")(s); if (inlib() && gseed) __gmp_randseed_ui(s, gseed); }
void __gmp_randinit_default(void *s) { real<void (*)(void *)>("__gmp_randinit_default")(s); if (inlib() && gseed) __gmp_randseed_ui(s, gseed); }
#endif
}
