// Native runtime of the harnesses: replays one path (inputs + schedule) of the symbolic executor
// against the compiled code. Every visible operation of the code (atomics, fences, futex, yield,
// thread start/join) has been routed here by the instrumentation; one thread runs at a time.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/syscall.h>
typedef uint64_t u64;
typedef uint32_t u32;
#define MAXT 8
extern void vp_rt_panic(void);
enum { RUN, FUTEX, JOIN, GHOST, DONE };
static struct { int t; u32 n; char k; int to; } *ev;
static int nev, iev;
static u64 *in; static int nin, iin;
static u64 params[64], ghost[256];
static u64 *logv; static int nlog;
static int status[MAXT]; static u64 sarg[MAXT]; static u32 vis[MAXT]; static int nth = 1;
static struct { void (*f)(void *); void *a; } dt[MAXT][64]; static int ndt[MAXT];
static volatile int cur;
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t C = PTHREAD_COND_INITIALIZER;
static __thread int self;
static long live; static u64 ops, clk = 1000000;
static FILE *rep;

static void out(const char *k, const char *m, int n, int code) {
  fprintf(rep, "%s %.*s\n", k, n, m);
  for (int i = 0; i < nlog; i++) fprintf(rep, "log %llu\n", (unsigned long long)logv[i]);
  fflush(rep);
  _exit(code);
}
static void fail(const char *k, const char *m) { char b[512]; snprintf(b, sizeof b, "%s: %s", k, m); out("VIOLATION", b, (int)strlen(b), 77); }
static void diverged(const char *m) { out("DIVERGED", m, (int)strlen(m), 81); }

static void hand(int to, int wait) {
  pthread_mutex_lock(&M);
  cur = to;
  pthread_cond_broadcast(&C);
  if (wait) while (cur != self) pthread_cond_wait(&C, &M);
  pthread_mutex_unlock(&M);
}
void vp_n_sp(void) {
  if (!rep) return;
  if (++ops > 3000000) fail("livelock", "too many visible operations");
  vis[self]++;
  if (iev < nev && ev[iev].k == 'p' && ev[iev].t == self && ev[iev].n == vis[self]) { int u = ev[iev++].to; hand(u, 1); }
}
static void away(char k, int wait) {
  int any = 0;
  for (int u = 0; u < nth; u++) if (u != self && status[u] == RUN) any = 1;
  if (!any) fail("deadlock", "no thread can run");
  if (iev >= nev) {
    // past the end of the recorded schedule: round robin
    for (int d = 1; d <= nth; d++) { int u = (self + d) % nth; if (u != self && status[u] == RUN) { hand(u, wait); return; } }
  }
  if (iev >= nev || ev[iev].k != k || ev[iev].t != self || ev[iev].n != vis[self]) {
    char b[200]; snprintf(b, sizeof b, "thread %d op %u kind %c: expected event %d of %d: %d %u %c", self, vis[self], k, iev, nev, iev < nev ? ev[iev].t : -1, iev < nev ? ev[iev].n : 0, iev < nev ? ev[iev].k : '-');
    diverged(b);
  }
  int u = ev[iev++].to;
  hand(u, wait);
}
static u64 input(void) { if (iin >= nin) { iin++; return 0; } return in[iin++]; }
u64 vp_sym(u32 w) { u64 v = input(); return w >= 64 ? v : v & ((1ull << w) - 1); }
u64 vp_choose(u64 n) { if (n == 0) fail("panic", "empty choice"); return n == 1 ? 0 : input() % n; }
void vp_assume(u64 c) { if (!c) diverged("assumption fails"); }
void vp_check(u64 c, const char *p, size_t n) { if (!c) out("VIOLATION assert:", p, (int)n, 77); }
void vp_cover(u64 i) { (void)i; }
u64 vp_gget(u64 i) { return ghost[i]; }
void vp_gset(u64 i, u64 v) { ghost[i] = v; }
u64 vp_gadd(u64 i, u64 v) { return ghost[i] += v; }
void vp_log(u64 v) { logv = realloc(logv, sizeof(u64) * (nlog + 1)); logv[nlog++] = v; }
void vp_trace(u64 v) { (void)v; }
u64 vp_param(u64 i) { return params[i]; }
u64 vp_live(void) { return live; }
u64 vp_conc(u64 v) { return v; }
u64 vp_tid(void) { return self; }
void vp_yield(void) { vp_n_sp(); }
void vp_wake(u64 i) {
  ghost[i] = 1;
  for (int u = 0; u < nth; u++) if (status[u] == GHOST && sarg[u] == i) status[u] = RUN;
}
void vp_wait(u64 i) {
  vp_n_sp();
  while (!ghost[i]) { status[self] = GHOST; sarg[self] = i; away('b', 1); }
  ghost[i] = 0;
}
struct start { int id; void (*f)(void *); void *(*g)(void *); void *a; };
static void *thread_main(void *p) {
  struct start s = *(struct start *)p;
  free(p);
  self = s.id;
  pthread_mutex_lock(&M);
  while (cur != self) pthread_cond_wait(&C, &M);
  pthread_mutex_unlock(&M);
  if (s.f) s.f(s.a); else s.g(s.a);
  while (ndt[self]) { int k = --ndt[self]; dt[self][k].f(dt[self][k].a); }
  status[self] = DONE;
  for (int u = 0; u < nth; u++) if (status[u] == JOIN && sarg[u] == (u64)self) status[u] = RUN;
  away('e', 0);
  return 0;
}
static int mk(void (*f)(void *), void *(*g)(void *), void *a) {
  if (nth >= MAXT) diverged("threads");
  struct start *s = malloc(sizeof *s);
  s->id = nth++; s->f = f; s->g = g; s->a = a;
  status[s->id] = RUN;
  pthread_t t;
  int id = s->id;
  if (pthread_create(&t, 0, thread_main, s)) diverged("pthread_create");
  pthread_detach(t);
  return id;
}
u64 vp_spawn(void (*f)(void *), void *a) { return mk(f, 0, a); }
void vp_join(u64 t) {
  vp_n_sp();
  while (status[t] != DONE) { status[self] = JOIN; sarg[self] = t; away('b', 1); }
}
int vp_n_pthread_create(u64 *p, void *attr, void *(*g)(void *), void *a) { (void)attr; *p = mk(0, g, a) + 1; return 0; }
int vp_n_pthread_join(u64 t, void **r) { (void)r; vp_join(t - 1); return 0; }
int vp_n_pthread_detach(u64 t) { (void)t; return 0; }
int vp_n_atexit(void (*f)(void *), void *a, void *d) { (void)d; if (ndt[self] >= 64) diverged("dtors"); dt[self][ndt[self]].f = f; dt[self][ndt[self]++].a = a; return 0; }
void vp_n_yield(void);
static void yield_(void) {
  vp_n_sp();
  int any = 0;
  for (int u = 0; u < nth; u++) if (u != self && status[u] == RUN) any = 1;
  if (!any) { static int spins; if (++spins > 400) fail("livelock", "the only runnable thread spins"); return; }
  if (iev >= nev) { static int spins; if (++spins > 2000) fail("livelock", "all threads spin"); }
  away('y', 1);
}
void vp_n_yield(void) { yield_(); }
void vp_n_pause(void) { yield_(); }
int vp_n_nanosleep(void *a, void *b) { (void)a; (void)b; yield_(); return 0; }
long vp_n_syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  if (n == 202) {
    u32 *addr = va_arg(ap, u32 *); int op = va_arg(ap, int) & 0x7f; u32 val = va_arg(ap, u32);
    vp_n_sp();
    if (op == 0 || op == 9) {
      if (*(volatile u32 *)addr != val) { errno = 11; return -1; }
      status[self] = FUTEX; sarg[self] = (u64)addr;
      away('b', 1);
      return 0;
    }
    int w[MAXT], k = 0;
    for (int u = 0; u < nth; u++) if (status[u] == FUTEX && sarg[u] == (u64)addr) w[k++] = u;
    int m = (int)val; if (m < 0) m = 0;
    if (k > m && m == 1) { int j = (int)input() % k; status[w[j]] = RUN; return 1; }
    if (m > k) m = k;
    for (int i = 0; i < m; i++) status[w[i]] = RUN;
    return m;
  }
  if (n == 318) { char *p = va_arg(ap, char *); size_t l = va_arg(ap, size_t); memset(p, 0x5a, l); return l; }
  diverged("syscall");
  return -1;
}
long vp_n_getrandom(char *p, size_t l) { memset(p, 0x5a, l); return l; }
long vp_n_enoent(void) { errno = 2; return -1; }
void *vp_n_null(void) { return 0; }
long vp_n_self(void) { return self + 1; }
long vp_n_zero(void) { return 0; }
static u32 nkeys = 1; static void *kv[MAXT][64];
int vp_n_key_create(u32 *k, void *d) { (void)d; *k = nkeys++; return 0; }
void *vp_n_getspecific(u32 k) { return kv[self][k % 64]; }
int vp_n_setspecific(u32 k, void *v) { kv[self][k % 64] = v; return 0; }
long vp_n_sysconf(int k) { return k == 30 ? 4096 : k == 84 ? 2 : -1; }
int vp_n_clock_gettime(int c, u64 *p) { (void)c; p[0] = ++clk; p[1] = 0; return 0; }
long vp_n_write(int f, void *p, long n) { (void)f; (void)p; return n; }
void vp_n_panic(void *p) { (void)p; vp_rt_panic(); }
void vp_n_abort(void) { fail("abort", "non-unwinding panic"); }

// allocator: every block ends at a guard page, freed blocks become inaccessible
static struct blk { char *base; size_t len; char *p; size_t n; int freed; } *blk; static int nblk, cblk;
static void *ef(size_t n, size_t al) {
  size_t pg = 4096, body = (n + pg - 1) / pg * pg; if (!body) body = pg;
  char *b = mmap(0, body + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (b == MAP_FAILED) diverged("mmap");
  mprotect(b + body, pg, PROT_NONE);
  if (!al) { al = 1; while (al < 16 && n && !(n & al)) al *= 2; if (!n) al = 16; }
  char *p = (char *)(((uintptr_t)(b + body - n)) & ~(uintptr_t)(al - 1));
  if (nblk == cblk) { cblk = cblk * 2 + 64; blk = realloc(blk, cblk * sizeof *blk); }
  blk[nblk++] = (struct blk){b, body + pg, p, n, 0};
  live++;
  return p;
}
static struct blk *find(void *p) { for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == p) return &blk[i]; return 0; }
void *vp_n_malloc(size_t n) { return ef(n, 0); }
void *vp_n_calloc(size_t a, size_t b) { return ef(a * b, 0); }
int vp_n_posix_memalign(void **o, size_t al, size_t n) { *o = ef(n, al); return 0; }
void vp_n_free(void *p) {
  if (!p) return;
  struct blk *b = find(p);
  if (!b || b->freed) fail("memory", "invalid or double free");
  b->freed = 1; live--;
  mprotect(b->base, b->len, PROT_NONE);
}
void *vp_n_realloc(void *p, size_t n) {
  if (!p) return ef(n, 0);
  struct blk *b = find(p);
  if (!b || b->freed) fail("memory", "realloc of an invalid pointer");
  size_t o = b->n;
  void *q = ef(n, 0);
  memcpy(q, p, o < n ? o : n);
  vp_n_free(p);
  return q;
}
void *vp_n_ralloc(size_t n, size_t al) { return ef(n, al); }
void *vp_n_rrealloc(void *p, size_t o, size_t al, size_t n) {
  struct blk *b = find(p);
  if (!b || b->freed) fail("memory", "realloc of an invalid pointer");
  void *q = ef(n, al);
  memcpy(q, p, o < n ? o : n);
  vp_n_free(p);
  return q;
}
static void onsig(int s) { fail(s == SIGABRT ? "abort" : s == SIGALRM ? "livelock" : s == SIGILL || s == SIGTRAP ? "abort" : "memory", strsignal(s)); }

struct entry { const char *n; void (*f)(void); };
extern struct entry vp_entries[];
// usage: replay ENTRY FILE REPORT    FILE: lines "param v", "in v", "ev t n k to"
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  rep = fopen(argv[3], "w");
  FILE *f = fopen(argv[2], "r");
  if (!f || !rep) return 2;
  char k[16]; int np = 0;
  while (fscanf(f, "%15s", k) == 1) {
    if (!strcmp(k, "param")) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) return 2; params[np++] = v; }
    else if (!strcmp(k, "in")) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) return 2; in = realloc(in, sizeof(u64) * (nin + 1)); in[nin++] = v; }
    else if (!strcmp(k, "ev")) { int t, to; unsigned n; char c; if (fscanf(f, "%d %u %c %d", &t, &n, &c, &to) != 4) return 2; ev = realloc(ev, sizeof *ev * (nev + 1)); ev[nev].t = t; ev[nev].n = n; ev[nev].k = c; ev[nev++].to = to; }
    else return 2;
  }
  fclose(f);
  int sg[] = {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGTRAP, SIGALRM};
  for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) signal(sg[i], onsig);
  alarm(30);
  memset(vis, 0, sizeof vis); ops = 0;
  for (struct entry *e = vp_entries; e->n; e++)
    if (!strcmp(e->n, argv[1])) { e->f(); out("END", "", 0, 0); }
  return 2;
}
