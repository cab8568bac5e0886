// C14: exhaustive exploration of the interleavings of concurrent calls into the compiled crate.
//
// libinst.so is the crate (and the standard library) compiled with memory-access callbacks
// (-Zsanitizer=thread); this program supplies those callbacks.  Worker threads run one at a
// time; before every access to memory that several threads touch (one of them writing), and at
// every futex operation, the running thread asks which thread runs next.  Depth-first search
// over these choices up to a preemption bound; each execution is a fork of the pristine process.
//   runner explore ALPHABET bound cap scenarios    -> lines on stdout
//   runner replay  SCENARIO
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>

typedef uint64_t u64;
typedef struct { int32_t f, o, reg, pad; double a, b; } Call;
#define MAXT 3
#define MAXC 3
#define MAXD 4000
#define NGRAN 4096
#define NPROC 8
#define STACK (1 << 20)
typedef struct { int np; Call prefix[2]; int nt; int nc[MAXT]; Call c[MAXT][MAXC]; } Scn;
typedef struct { u64 addr; uint8_t r, w; } Gran;
enum { RUN, OK, DEADLOCK, LIVELOCK, RACE, CAP };
typedef struct {
  int status;                 // of the execution
  int nd;                     // decisions taken
  uint8_t mask[MAXD], chosen[MAXD], cur[MAXD]; // enabled set, choice, running thread if it could continue (else 255)
  u64 res[MAXT][MAXC];
  int panicked;
  u64 trace; long ntrace;     // the sequence of shared accesses, hashed
  int ngran; Gran g[NGRAN];   // memory touched: which threads read and wrote
  char info[400];
  u64 points;                 // accesses to shared memory seen
} Shm;
static Shm *S;
static int (*vf_call)(int, double, double, int, int, double *);

// ---------------------------------------------------------------- memory map
static struct { uintptr_t lo, hi; } rw[8], ro[8];
static int nrw, nro;
static uintptr_t base;
static int phdr(struct dl_phdr_info *i, size_t n, void *d) {
  if (!strstr(i->dlpi_name, "libinst")) return 0;
  base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    if (p->p_type != PT_LOAD) continue;
    uintptr_t lo = i->dlpi_addr + p->p_vaddr, hi = lo + p->p_memsz;
    if (p->p_flags & PF_W) rw[nrw].lo = lo, rw[nrw++].hi = hi;
    else ro[nro].lo = lo, ro[nro++].hi = hi;
  }
  return 0;
}
// ---------------------------------------------------------------- execution state (in the child)
static __thread int me = -1;
static int nth, mode;          // mode 0: callbacks off, 1: prefix, 2: threads
static char *stk[MAXT];
static sem_t sem[MAXT];
static int done[MAXT];
static uintptr_t blocked[MAXT]; static int timed[MAXT], woken[MAXT];
static int forced_n; static uint8_t forced[MAXD];
static uintptr_t lastaddr[MAXT]; static int spin[MAXT], lone[MAXT];
// addresses (8-byte granules) at which threads are switched
static u64 cset[1024]; static int ncset;
static int inset(u64 g) { for (int i = 0; i < ncset; i++) if (cset[i] == g) return 1; return 0; }
// ---- happens-before
typedef struct { unsigned c[MAXT + 1]; } VC;
static VC tc[MAXT + 1];
typedef struct { u64 addr; VC l; int has; int wt; unsigned wc; int watomic; VC r, ra; } Sh;
#define NSH 8192
static Sh sh[NSH];
static int fences;
static Sh *shadow(u64 a) {
  for (unsigned h = (unsigned)((a * 0x9E3779B97F4A7C15ull) >> 40) % NSH, n = 0; n < NSH; h = (h + 1) % NSH, n++) {
    if (sh[h].addr == a) return &sh[h];
    if (!sh[h].addr) { sh[h].addr = a; sh[h].wt = -1; return &sh[h]; }
  }
  return 0;
}
static void vjoin(VC *a, VC *b) { for (int i = 0; i <= MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
static void where(char *o, size_t n, uintptr_t a) {
  for (int i = 0; i < nrw; i++) if (a >= rw[i].lo && a < rw[i].hi) { snprintf(o, n, "static data at libinst+0x%lx", a - base); return; }
  snprintf(o, n, "heap memory");
}
static void fin(int status) {
  S->status = status;
  _exit(0);
}
static void race(int t, int u, uintptr_t a, const char *k) {
  if (S->info[0]) return;
  char w[100]; where(w, sizeof w, a);
  snprintf(S->info, sizeof S->info, "data race: %s of threads %d and %d on %s", k, u, t, w);
}
static void hb(int t, uintptr_t a, int size, int wr, int atomic) {
  for (int i = 0; i < size; i++) {
    Sh *s = shadow(a + i);
    if (!s) return;
    VC *c = &tc[t];
    if (s->wt >= 0 && s->wt != t && s->wc > c->c[s->wt] && !(atomic && s->watomic)) race(t, s->wt, a, wr ? "write and write" : "write and read");
    if (wr)
      for (int u = 0; u <= MAXT; u++)
        if (u != t && (s->r.c[u] > c->c[u] || (!atomic && s->ra.c[u] > c->c[u]))) race(t, u, a, "read and write");
    if (wr) { s->wt = t; s->wc = c->c[t]; s->watomic = atomic; }
    else if (atomic) s->ra.c[t] = c->c[t];
    else s->r.c[t] = c->c[t];
  }
}
// mo: __ATOMIC_*; kind 1 load, 2 store, 3 read-modify-write
static void sync_edge(int t, uintptr_t a, int mo, int kind) {
  Sh *s = shadow(a);
  if (!s) return;
  int acq = fences || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  int rel = fences || mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if ((kind & 1) && acq && s->has) vjoin(&tc[t], &s->l);
  if (kind & 2) {
    if (kind == 2 && !rel) s->has = 0, memset(&s->l, 0, sizeof s->l);
    if (rel) {
      if (kind == 2) s->l = tc[t]; else vjoin(&s->l, &tc[t]);
      s->has = 1;
      tc[t].c[t]++;
    }
  }
}
static int shared(uintptr_t a) {
  for (int i = 0; i < nro; i++) if (a >= ro[i].lo && a < ro[i].hi) return 0;
  for (int i = 0; i < nth; i++) if (a >= (uintptr_t)stk[i] && a < (uintptr_t)stk[i] + STACK) return 0;
  if (me < 0) { // main thread's own stack
    char here;
    if (a > (uintptr_t)&here - (8 << 20) && a < (uintptr_t)&here + (8 << 20)) return 0;
  }
  return 1;
}
static void note(uintptr_t a, int size, int wr) {
  int t = me;
  S->trace = (S->trace ^ (a << 1 | wr)) * 0x100000001b3ull;
  S->ntrace++;
  for (u64 g = a >> 3; g <= (a + size - 1) >> 3; g++) {
    int i;
    for (i = 0; i < S->ngran; i++) if (S->g[i].addr == g) break;
    if (i == S->ngran) {
      if (i == NGRAN) return;
      S->g[i].addr = g; S->g[i].r = S->g[i].w = 0; S->ngran++;
    }
    uint8_t bit = t < 0 ? 128 : 1 << t;
    if (wr) S->g[i].w |= bit; else S->g[i].r |= bit;
  }
}
// ---------------------------------------------------------------- scheduler
static int enabled(int t) { return !done[t] && !blocked[t]; }
static void give(int to) {
  int m = me;
  if (to == m) return;
  sem_post(&sem[to]);
  if (m >= 0 && !done[m]) while (sem_wait(&sem[m])) ;
}
/// choose who runs next; `must`: the running thread cannot or should not continue
static void pick(int must) {
  int mask = 0, n = 0;
  for (int t = 0; t < nth; t++) if (enabled(t)) mask |= 1 << t, n++;
  if (must && me >= 0 && n > 1 && enabled(me)) mask &= ~(1 << me), n--; // gives way
  if (!n) {
    // a timed wait may end
    for (int t = 0; t < nth; t++) if (!done[t] && blocked[t] && timed[t]) { blocked[t] = 0; woken[t] = 0; give(t); return; }
    int all = 1;
    for (int t = 0; t < nth; t++) all &= done[t];
    if (all) return;
    snprintf(S->info, sizeof S->info, "deadlock: every unfinished thread waits");
    fin(DEADLOCK);
  }
  int to = -1, cont = me >= 0 && !must && enabled(me);
  for (int t = 0; t < nth; t++) if (mask >> t & 1) { to = t; break; }
  if (cont) to = me;
  if (n > 1) {
    int d = S->nd;
    if (d >= MAXD) fin(CAP);
    if (d < forced_n && (mask >> forced[d] & 1)) to = forced[d];
    S->mask[d] = mask; S->chosen[d] = to; S->cur[d] = cont ? me : 255;
    S->nd++;
  }
  give(to);
}
static void point(uintptr_t a, int size, int wr) {
  int hit = 0;
  for (u64 g = a >> 3; g <= (a + size - 1) >> 3; g++) hit |= inset(g);
  if (!hit) return;
  int must = 0;
  if (lastaddr[me] == a && !wr) {
    if (++spin[me] > 20) must = 1;
    if (++lone[me] > 20000) { snprintf(S->info, sizeof S->info, "livelock: a thread waits for a value nobody writes"); fin(LIVELOCK); }
  } else {
    lastaddr[me] = a; spin[me] = 0;
    if (wr) for (int t = 0; t < nth; t++) if (t != me) lone[t] = 0;
  }
  if (must) spin[me] = 0;
  pick(must);
}
/// before a plain access
static int plain = 1; // switch threads at plain accesses too (0: at atomics only, races are found by the ordering)
static void acc(void *p, int size, int wr) {
  if (!mode) return;
  uintptr_t a = (uintptr_t)p;
  if (!shared(a)) return;
  S->points++;
  note(a, size, wr);
  if (mode == 2 && (plain || fences)) point(a, size, wr);
  hb(me < 0 ? MAXT : me, a, size, wr, 0);
}
static int abegin(void *p, int size, int kind) {
  if (!mode) return 0;
  uintptr_t a = (uintptr_t)p;
  if (!shared(a)) return 0;
  S->points++;
  if (kind & 1) note(a, size, 0);
  if (kind & 2) note(a, size, 1);
  if (mode == 2) point(a, size, kind == 2);
  return 1;
}
static void aend(int on, void *p, int size, int kind, int mo) {
  if (!on) return;
  int t = me < 0 ? MAXT : me;
  // order first, then the access itself
  if (kind & 1) { sync_edge(t, (uintptr_t)p, mo, kind == 3 ? 3 : 1); hb(t, (uintptr_t)p, size, 0, 1); }
  else sync_edge(t, (uintptr_t)p, mo, 2);
  if (kind & 2) hb(t, (uintptr_t)p, size, 1, 1);
}
// ---------------------------------------------------------------- callbacks
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { acc(p, 8, 1); }
void __tsan_vptr_read(void **p) { acc(p, 8, 0); }
#define RWN(n) \
  void __tsan_read##n(void *p) { acc(p, n, 0); } \
  void __tsan_write##n(void *p) { acc(p, n, 1); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, 0); } \
  void __tsan_unaligned_write##n(void *p) { acc(p, n, 1); } \
  void __tsan_read_write##n(void *p) { acc(p, n, 0); acc(p, n, 1); } \
  void __tsan_unaligned_read_write##n(void *p) { acc(p, n, 0); acc(p, n, 1); }
RWN(1) RWN(2) RWN(4) RWN(8) RWN(16)
void __tsan_read_range(void *p, size_t n) { for (size_t i = 0; i < n; i += 8) acc((char *)p + i, n - i < 8 ? n - i : 8, 0); }
void __tsan_write_range(void *p, size_t n) { for (size_t i = 0; i < n; i += 8) acc((char *)p + i, n - i < 8 ? n - i : 8, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (!mode) return memcpy(d, s, n);
  for (size_t i = 0; i < n; i += 8) {
    size_t k = n - i < 8 ? n - i : 8;
    acc((char *)s + i, k, 0); acc((char *)d + i, k, 1);
    memcpy((char *)d + i, (char *)s + i, k);
  }
  return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (mode) { __tsan_read_range((void *)s, n); __tsan_write_range(d, n); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (mode) __tsan_write_range(d, n);
  return memset(d, c, n);
}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(T *p, int mo) { int g = abegin(p, sizeof(T), 1); T v = __atomic_load_n(p, 5); aend(g, p, sizeof(T), 1, mo); return v; } \
  void __tsan_atomic##bits##_store(T *p, T v, int mo) { int g = abegin(p, sizeof(T), 2); __atomic_store_n(p, v, 5); aend(g, p, sizeof(T), 2, mo); } \
  T __tsan_atomic##bits##_exchange(T *p, T v, int mo) { int g = abegin(p, sizeof(T), 3); T r = __atomic_exchange_n(p, v, 5); aend(g, p, sizeof(T), 3, mo); return r; } \
  T __tsan_atomic##bits##_fetch_add(T *p, T v, int mo) { int g = abegin(p, sizeof(T), 3); T r = __atomic_fetch_add(p, v, 5); aend(g, p, sizeof(T), 3, mo); return r; } \
  T __tsan_atomic##bits##_fetch_sub(T *p, T v, int mo) { int g = abegin(p, sizeof(T), 3); T r = __atomic_fetch_sub(p, v, 5); aend(g, p, sizeof(T), 3, mo); return r; } \
  T __tsan_atomic##bits##_fetch_and(T *p, T v, int mo) { int g = abegin(p, sizeof(T), 3); T r = __atomic_fetch_and(p, v, 5); aend(g, p, sizeof(T), 3, mo); return r; } \
  T __tsan_atomic##bits##_fetch_or(T *p, T v, int mo) { int g = abegin(p, sizeof(T), 3); T r = __atomic_fetch_or(p, v, 5); aend(g, p, sizeof(T), 3, mo); return r; } \
  T __tsan_atomic##bits##_fetch_xor(T *p, T v, int mo) { int g = abegin(p, sizeof(T), 3); T r = __atomic_fetch_xor(p, v, 5); aend(g, p, sizeof(T), 3, mo); return r; } \
  T __tsan_atomic##bits##_fetch_nand(T *p, T v, int mo) { int g = abegin(p, sizeof(T), 3); T r = __atomic_fetch_nand(p, v, 5); aend(g, p, sizeof(T), 3, mo); return r; } \
  T __tsan_atomic##bits##_compare_exchange_val(T *p, T c, T v, int mo, int fmo) { \
    int g = abegin(p, sizeof(T), 3); T e = c; int ok = __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); \
    aend(g, p, sizeof(T), ok ? 3 : 1, ok ? mo : fmo); return ok ? c : e; } \
  int __tsan_atomic##bits##_compare_exchange_strong(T *p, T *c, T v, int mo, int fmo) { \
    int g = abegin(p, sizeof(T), 3); int ok = __atomic_compare_exchange_n(p, c, v, 0, 5, 5); \
    aend(g, p, sizeof(T), ok ? 3 : 1, ok ? mo : fmo); return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(T *p, T *c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fences = 1; __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) {}

// ---------------------------------------------------------------- the operating system
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
long syscall(long n, ...) {
  va_list v; va_start(v, n);
  long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
  va_end(v);
  if (n == SYS_futex && mode == 2 && me >= 0) {
    int op = b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      pick(0);
      if (*(volatile uint32_t *)a != (uint32_t)c) { errno = EAGAIN; return -1; }
      blocked[me] = a; timed[me] = d != 0; woken[me] = 0;
      int m = me;
      pick(1);
      if (!woken[m]) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long k = 0;
      for (int t = 0; t < nth && k < c; t++) if (blocked[t] == (uintptr_t)a) { blocked[t] = 0; woken[t] = 1; k++; }
      pick(0);
      return k;
    }
  }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
int sched_yield(void) { if (mode == 2 && me >= 0) pick(1); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (mode == 2 && me >= 0) { pick(1); return 0; } return raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0) ? -1 : 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) { if (mode == 2 && me >= 0) { pick(1); return 0; } return -raw6(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0); }
extern void __libc_free(void *);
void free(void *p) {
  if (p && mode) { // memory handed out again has no history
    size_t n = malloc_usable_size(p);
    if (n < 4096) for (size_t i = 0; i < n; i++) { Sh *s = shadow((u64)p + i); if (s) { u64 a = s->addr; memset(s, 0, sizeof *s); s->addr = a; s->wt = -1; } }
  }
  __libc_free(p);
}
// ---------------------------------------------------------------- one execution
static Scn *sc;
static void *worker(void *x) {
  int t = (int)(long)x;
  while (sem_wait(&sem[t])) ;
  me = t;
  for (int k = 0; k < sc->nc[t]; k++) {
    Call *c = &sc->c[t][k];
    double v = 0;
    int r = vf_call(c->f, c->a, c->b, c->o, c->reg, &v);
    if (r) { S->panicked = 1; S->res[t][k] = 0x7ff8dead00000001ull; }
    else memcpy(&S->res[t][k], &v, 8);
    if (k + 1 < sc->nc[t]) pick(0);
  }
  done[t] = 1;
  pick(1);
  return 0;
}
static void child(void) {
  signal(SIGALRM, SIG_DFL);
  alarm(60);
  nth = 0;
  for (int i = 0; i <= MAXT; i++) tc[i].c[i] = 1;
  mode = 1;
  for (int k = 0; k < sc->np; k++) {
    double v;
    vf_call(sc->prefix[k].f, sc->prefix[k].a, sc->prefix[k].b, sc->prefix[k].o, sc->prefix[k].reg, &v);
  }
  mode = 0;
  for (int i = 0; i < MAXT; i++) { vjoin(&tc[i], &tc[MAXT]); }
  tc[MAXT].c[MAXT]++;
  pthread_t th[MAXT];
  for (int t = 0; t < sc->nt; t++) {
    stk[t] = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk[t], STACK);
    sem_init(&sem[t], 0, 0);
    if (pthread_create(&th[t], &at, worker, (void *)(long)t)) _exit(3);
  }
  nth = sc->nt;
  mode = 2;
  pick(1); // who starts
  for (int t = 0; t < sc->nt; t++) pthread_join(th[t], 0);
  fin(OK);
}
static u64 nexec, ntrans, npoints;
/// 0 fine, 2 the child died
static int execute(Scn *s, const uint8_t *f, int n) {
  S->status = RUN; S->nd = 0; S->ngran = 0; S->info[0] = 0; S->panicked = 0; S->points = 0; S->trace = 14695981039346656037ull; S->ntrace = 0;
  memset(S->res, 0, sizeof S->res);
  forced_n = n; memcpy(forced, f, n);
  sc = s;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (!p) child();
  int st;
  while (waitpid(p, &st, 0) < 0) ;
  nexec++; ntrans += S->nd + s->nt; npoints += S->points;
  if (!WIFEXITED(st) || WEXITSTATUS(st) || S->status == RUN) {
    snprintf(S->info, sizeof S->info, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "a call did not return" : "the process was killed by signal %d", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
    return 2;
  }
  return 0;
}
// ---------------------------------------------------------------- scenarios
static const char *FN[] = {"pt", "ph", "ps", "hs", "pv", "tv", "th", "ts", "px", "tx", "hx", "sx"};
#define NOREG (INT32_MIN + 7)
static void pcall(char *o, Call *c) {
  u64 a, b; memcpy(&a, &c->a, 8); memcpy(&b, &c->b, 8);
  sprintf(o + strlen(o), "%d:%016lx:%016lx:%d:%d", c->f, a, b, c->o, c->reg);
}
static void tcall(char *o, Call *c) {
  if (c->reg == NOREG) sprintf(o + strlen(o), "%s(%.17g,%.17g,%d)", FN[c->f], c->a, c->b, c->o);
  else sprintf(o + strlen(o), "%s(%.17g,%.17g,(%d,%d))", FN[c->f], c->a, c->b, c->o, c->reg);
}
static void pscn(char *o, Scn *s, uint8_t *f, int n) {
  o[0] = 0;
  for (int k = 0; k < s->np; k++) { if (k) strcat(o, ","); pcall(o, &s->prefix[k]); }
  for (int t = 0; t < s->nt; t++) { strcat(o, "/"); for (int k = 0; k < s->nc[t]; k++) { if (k) strcat(o, ","); pcall(o, &s->c[t][k]); } }
  strcat(o, plain ? "/#" : "/#s");
  int l = strlen(o);
  for (int i = 0; i < n; i++) o[l++] = '0' + f[i];
  o[l] = 0;
}
static void tscn(char *o, Scn *s) {
  o[0] = 0;
  if (s->np) { strcat(o, "after "); for (int k = 0; k < s->np; k++) { tcall(o, &s->prefix[k]); strcat(o, " "); } }
  for (int t = 0; t < s->nt; t++) { if (t) strcat(o, " || "); for (int k = 0; k < s->nc[t]; k++) { if (k) strcat(o, "; "); tcall(o, &s->c[t][k]); } }
}
static int ccall(char **q, Call *c) {
  u64 a, b; int n;
  if (sscanf(*q, "%d:%lx:%lx:%d:%d%n", &c->f, &a, &b, &c->o, &c->reg, &n) < 5) return 0;
  memcpy(&c->a, &a, 8); memcpy(&c->b, &b, 8);
  *q += n; if (**q == ',') ++*q;
  return 1;
}
static int same(u64 x, u64 y) {
  double a, b; memcpy(&a, &x, 8); memcpy(&b, &y, 8);
  return x == y || (a != a && b != b && x != 0x7ff8dead00000001ull && y != 0x7ff8dead00000001ull);
}
// results of calls made alone in a fresh process
typedef struct { Call c; u64 v; int st; int ng; Gran g[64]; u64 sig; long len; } Base;
static u64 alone(Call *c, int *st) {
  Scn s = {0}; s.nt = 1; s.nc[0] = 1; s.c[0][0] = *c;
  int k = ncset; ncset = 0;
  *st = execute(&s, 0, 0) ? 2 : S->status;
  ncset = k;
  return S->res[0][0];
}
/// compares one finished execution with the calls made alone; 1 and *msg if it differs
static int judge(Scn *s, u64 want[MAXT][MAXC], int died, char *msg, const char **kind) {
  if (died) { *kind = strstr(S->info, "return") ? "hang" : "crash"; strcpy(msg, S->info); return 1; }
  if (S->status == DEADLOCK) { *kind = "deadlock"; strcpy(msg, S->info); return 1; }
  if (S->status == LIVELOCK) { *kind = "livelock"; strcpy(msg, S->info); return 1; }
  if (S->status == CAP) return 0;
  for (int t = 0; t < s->nt; t++)
    for (int k = 0; k < s->nc[t]; k++)
      if (!same(S->res[t][k], want[t][k])) {
        double g, w; memcpy(&g, &S->res[t][k], 8); memcpy(&w, &want[t][k], 8);
        *kind = S->res[t][k] == 0x7ff8dead00000001ull ? "panic" : "value";
        msg[0] = 0; sprintf(msg, "thread %d: ", t); tcall(msg, &s->c[t][k]);
        sprintf(msg + strlen(msg), " gives %.17g, alone it gives %.17g", g, w);
        return 1;
      }
  if (S->info[0]) { *kind = "race"; strcpy(msg, S->info); return 1; }
  return 0;
}
static int grow(void) { // memory that several threads touch, one of them writing
  int add = 0;
  for (int i = 0; i < S->ngran; i++) {
    int r = S->g[i].r & 127, w = S->g[i].w & 127;
    if (w && ((r | w) & ((r | w) - 1)) && !inset(S->g[i].addr) && ncset < 1024) cset[ncset++] = S->g[i].addr, add = 1;
  }
  return add;
}
/// all schedules of a scenario with at most `bound` preemptions; 1 if one is wrong
static int complete;
static int explore(Scn *s, int bound, u64 cap, u64 want[MAXT][MAXC], char *msg, const char **kind) {
  uint8_t f[MAXD], tried[MAXD], mask[MAXD], cur[MAXD];
  int n;
  complete = 1;
  ncset = 0;
again:
  for (int b = 0; b <= bound; b++) {
    n = 0;
    u64 count = 0;
    for (;;) {
      int died = execute(s, f, n);
      if (judge(s, want, died, msg, kind)) return 1;
      if (grow()) goto again;
      if (++count > cap) { complete = 0; break; }
      int nd = S->nd, pre[MAXD + 1];
      for (int i = n; i < nd; i++) { f[i] = S->chosen[i]; tried[i] = 1 << f[i]; mask[i] = S->mask[i]; cur[i] = S->cur[i]; }
      for (int i = 0; i < n && i < nd; i++) { mask[i] = S->mask[i]; cur[i] = S->cur[i]; }
      pre[0] = 0;
      for (int i = 0; i < nd; i++) pre[i + 1] = pre[i] + (cur[i] != 255 && f[i] != cur[i]);
      int i = nd - 1, got = 0;
      for (; i >= 0 && !got; i--)
        for (int t = 0; t < s->nt; t++)
          if ((mask[i] >> t & 1) && !(tried[i] >> t & 1) && pre[i] + (cur[i] != 255 && t != cur[i]) <= b) {
            tried[i] |= 1 << t; f[i] = t; n = i + 1; got = 1; break;
          }
      if (!got) break;
    }
  }
  return 0;
}
static Shm *shm(size_t n) { return mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static u64 hash(u64 h, u64 x) { return (h ^ x) * 0x100000001b3ull; }
static int load(const char *so) {
  void *h = dlopen(so, RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 0; }
  vf_call = dlsym(h, "vf_call");
  void (*q)(void) = dlsym(h, "vf_quiet");
  if (!vf_call || !q) return 0;
  q();
  dl_iterate_phdr(phdr, 0);
  return nrw > 0;
}
#define SCNTXT 8192
int main(int ac, char **av) {
  if (ac < 4 || !load(av[1])) { fprintf(stderr, "runner: cannot start\n"); return 2; }
  S = shm(sizeof(Shm));
  if (!strcmp(av[2], "replay")) {
    Scn s = {0}; char *q = av[3];
    while (*q != '/' && ccall(&q, &s.prefix[s.np])) s.np++;
    while (*q == '/' && q[1] != '#') { q++; while (ccall(&q, &s.c[s.nt][s.nc[s.nt]])) s.nc[s.nt]++; s.nt++; }
    uint8_t f[MAXD]; int n = 0;
    char *h = strchr(q, '#');
    if (!s.nt || !h) { fprintf(stderr, "runner: bad scenario\n"); return 2; }
    if (h[1] == 's') plain = 0, h++;
    for (h++; *h && n < MAXD; h++) f[n++] = *h - '0';
    u64 want[MAXT][MAXC]; int st;
    for (int t = 0; t < s.nt; t++) for (int k = 0; k < s.nc[t]; k++) want[t][k] = alone(&s.c[t][k], &st);
    char msg[SCNTXT]; const char *kind = ""; char txt[SCNTXT];
    tscn(txt, &s); printf("%s\n", txt);
    // the switching points of the recorded schedule are those of the shared memory it found
    ncset = 0;
    for (int i = 0; i < 20; i++) {
      int died = execute(&s, f, n);
      int bad = judge(&s, want, died, msg, &kind);
      int more = !died && grow();
      if (!more) { if (bad) printf("%s: %s\n", kind, msg); printf(bad ? "reproduced\n" : "not reproduced\n"); return bad; }
    }
    return 0;
  }
  int bound = atoi(av[4]); u64 cap = atoll(av[5]); int maxscn = atoi(av[6]); double limit = atof(av[7]);
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  FILE *in = fopen(av[3], "rb");
  if (!in) return 2;
  fseek(in, 0, SEEK_END); long nb = ftell(in) / sizeof(Call); rewind(in);
  Base *B = (Base *)shm(nb * sizeof(Base));
  for (long i = 0; i < nb; i++) if (fread(&B[i].c, sizeof(Call), 1, in) != 1) return 2;
  u64 *tot = (u64 *)shm(4096);
  // ---- every call alone
  for (int w = 0; w < NPROC; w++)
    if (!fork()) {
      S = shm(sizeof(Shm));
      for (long i = w; i < nb; i += NPROC) {
        B[i].v = alone(&B[i].c, &B[i].st);
        if (B[i].st == OK && S->panicked) B[i].st = 9;
        for (int k = 0; k < S->ngran; k++)
          if (B[i].ng < 64) B[i].g[B[i].ng++] = S->g[k];
        B[i].sig = S->trace; B[i].len = S->ntrace;
      }
      __sync_fetch_and_add(&tot[0], nexec); __sync_fetch_and_add(&tot[1], ntrans); __sync_fetch_and_add(&tot[2], npoints);
      _exit(0);
    }
  for (int w = 0; w < NPROC; w++) { int st; wait(&st); if (st) return 2; }
  long touching = 0, writing = 0, broken = 0;
  for (long i = 0; i < nb; i++) {
    touching += B[i].ng > 0;
    int wr = 0;
    for (int k = 0; k < B[i].ng; k++) wr |= B[i].g[k].w;
    writing += wr != 0;
    broken += B[i].st != OK;
  }
  printf("alone calls=%ld touching_shared_memory=%ld writing_shared_memory=%ld not_returning=%ld\n", nb, touching, writing, broken);
  // ---- scenarios: calls that touch shared memory first, one of every sequence of accesses, then more of each
  typedef struct { int np, p, a[2], b[2], c, na, nb, nc, bound, plain; } Sd;
  Sd *sd = calloc(4000000, sizeof(Sd)); long ns = 0;
  long *rep = calloc(nb, sizeof(long)); long nr = 0, nr1 = 0;
  for (int pass = 0; pass < 4 && nr < 64; pass++) {
    for (;;) { // the shortest sequence not represented yet
      long best = -1;
      for (long i = 0; i < nb; i++) {
        int wr = 0;
        for (int k = 0; k < B[i].ng; k++) wr |= B[i].g[k].w;
        if (!B[i].ng || B[i].st != OK || (pass < 2 && !wr)) continue;
        int n = 0, dup = 0, same_f = 0;
        for (long j = 0; j < nr; j++) n += B[rep[j]].sig == B[i].sig, dup |= rep[j] == i || (pass && B[rep[j]].v == B[i].v), same_f += B[rep[j]].c.f == B[i].c.f && B[rep[j]].len == B[i].len;
        if (dup || n > pass || same_f >= 12) continue;
        if (best < 0 || B[i].len < B[best].len) best = i;
      }
      if (best < 0 || nr >= (pass ? 64 : 40)) break;
      rep[nr++] = best;
    }
    if (!pass) nr1 = nr;
  }
  #define ADD(...) do { if (ns < maxscn) sd[ns++] = (Sd){.bound = bound, .plain = 0, __VA_ARGS__}; } while (0)
  // pairs of calls that meet in memory: first all of them with one preemption at any access, then deeper
  long cap0 = maxscn; maxscn = 4000000;
  for (long d = 0; d < nr; d++)
    for (long i = 0; i + d < nr; i++) {
      int a = rep[i], b = rep[i + d], meet = 0;
      for (int x = 0; x < B[a].ng; x++) for (int y = 0; y < B[b].ng; y++) meet |= B[a].g[x].addr == B[b].g[y].addr && (B[a].g[x].w || B[b].g[y].w);
      if (meet || d <= 1) ADD(.a = {a}, .b = {b}, .na = 1, .nb = 1, .bound = 1, .plain = 1);
    }
  long first = ns;
  maxscn = ns + cap0;
  for (long d = 0; d < nr; d++) // diagonals: near pairs first
    for (long i = 0; i + d < nr; i++) {
      int a = rep[i], b = rep[i + d], c = rep[(i + d + 1) % nr];
      ADD(.a = {a}, .b = {b}, .na = 1, .nb = 1);
      ADD(.np = 1, .p = c, .a = {a}, .b = {b}, .na = 1, .nb = 1);
      if (d <= 3) {
        ADD(.np = 1, .p = a, .a = {a}, .b = {b}, .na = 1, .nb = 1);
        ADD(.a = {a, b}, .b = {b, a}, .na = 2, .nb = 2);
        ADD(.a = {a, c}, .b = {a, b}, .na = 2, .nb = 2);
        ADD(.a = {a}, .b = {b}, .c = c, .na = 1, .nb = 1, .nc = 1);
      }
    }
  long shared_scn = ns;
  for (long i = 0; i < nb; i++) {
    maxscn = 4000000;
    ADD(.a = {i}, .b = {(i + 1) % nb}, .na = 1, .nb = 1);
    ADD(.a = {i}, .b = {(i * 7 + 3) % nb}, .na = 1, .nb = 1);
    ADD(.a = {i}, .b = {i}, .c = (i + 11) % nb, .na = 1, .nb = 1, .nc = 1);
  }
  printf("scenarios with shared memory=%ld others=%ld representatives=%ld sequences=%ld first_pass=%ld\n", shared_scn, ns - shared_scn, nr, nr1, first);
  fflush(stdout);
  long *next = (long *)shm(64); long *viol = (long *)shm(64); u64 *part = (u64 *)shm(64);
  for (int w = 0; w < NPROC; w++)
    if (!fork()) {
      S = shm(sizeof(Shm)); nexec = ntrans = npoints = 0;
      for (;;) {
        long k = __sync_fetch_and_add(next, 1);
        if (k >= ns || *viol >= 12) break;
        struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        if (t.tv_sec - t0.tv_sec > limit) { __sync_fetch_and_add(&part[1], 1); continue; }
        Sd *d = &sd[k]; Scn s = {0};
        u64 want[MAXT][MAXC] = {{0}};
        int bad = 0;
        s.np = d->np; if (d->np) s.prefix[0] = B[d->p].c, bad |= B[d->p].st != OK;
        s.nt = 2 + d->nc; s.nc[0] = d->na; s.nc[1] = d->nb; s.nc[2] = d->nc;
        for (int i = 0; i < d->na; i++) s.c[0][i] = B[d->a[i]].c, want[0][i] = B[d->a[i]].v, bad |= B[d->a[i]].st != OK;
        for (int i = 0; i < d->nb; i++) s.c[1][i] = B[d->b[i]].c, want[1][i] = B[d->b[i]].v, bad |= B[d->b[i]].st != OK;
        if (d->nc) s.c[2][0] = B[d->c].c, want[2][0] = B[d->c].v, bad |= B[d->c].st != OK;
        if (bad) continue; // a call that fails alone is not this property's
        char msg[SCNTXT]; const char *kind = "";
        plain = d->plain;
        if (explore(&s, d->bound, cap, want, msg, &kind)) {
          static char a[SCNTXT], b[SCNTXT * 2];
          uint8_t f[MAXD]; int n = S->nd; memcpy(f, S->chosen, n);
          tscn(a, &s); pscn(b, &s, f, n > 4000 ? 4000 : n);
          if (__sync_fetch_and_add(viol, 1) < 12) { printf("VIOL\t%s\t%s\t%s, %s\n", kind, b, a, msg); fflush(stdout); }
        } else if (!complete) __sync_fetch_and_add(&part[0], 1);
      }
      __sync_fetch_and_add(&tot[0], nexec); __sync_fetch_and_add(&tot[1], ntrans); __sync_fetch_and_add(&tot[2], npoints);
      _exit(0);
    }
  for (int w = 0; w < NPROC; w++) { int st; wait(&st); if (st) return 2; }
  printf("total executions=%lu transitions=%lu shared_accesses=%lu capped=%lu unexplored=%lu violations=%ld\n", tot[0], tot[1], tot[2], part[0], part[1], *viol);
  return 0;
}
