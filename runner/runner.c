// Native replay: loads the harness library (the very code whose IR is executed symbolically) and runs one entry
// on a concrete input. usage: runner LIB ENTRY HEX   or   runner LIB -   (lines "ENTRY HEX" on stdin)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static uint8_t input[1 << 16];
static size_t ninput, used;
static bool expect_panic_flag;
static uint64_t hash = 0xcbf29ce484222325ull;
static uint32_t covers[4096];
static int ncovers;
static _Atomic long live_blocks;
static bool verbose;

// live heap blocks, without those of the thread library
static __thread bool quiet;
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && !quiet) live_blocks++; return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p && !quiet) live_blocks++; return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (!q && p && !quiet) live_blocks++; return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p && !quiet) live_blocks++; return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
void free(void *p) { if (p && !quiet) live_blocks--; __libc_free(p); }

static void report(const char *outcome, const char *m, size_t n) {
  static char buf[1 << 16];
  size_t k = snprintf(buf, 200, "{\"outcome\":\"%s\",\"hash\":\"%016llx\",\"covers\":[", outcome, (unsigned long long)hash);
  for (int i = 0; i < ncovers; i++) for (int j = i + 1; j < ncovers; j++)
    if (covers[j] < covers[i]) { uint32_t t = covers[i]; covers[i] = covers[j]; covers[j] = t; }
  for (int i = 0; i < ncovers; i++)
    if (!i || covers[i] != covers[i - 1]) k += sprintf(buf + k, "%s%u", i ? "," : "", covers[i]);
  k += sprintf(buf + k, "],\"message\":\"");
  for (size_t i = 0; i < n && k < sizeof buf - 64; i++) {
    unsigned char c = m[i];
    if (c == '"' || c == '\\') { buf[k++] = '\\'; buf[k++] = c; }
    else if (c < 32 || c > 126) k += sprintf(buf + k, "\\u%04x", c);
    else buf[k++] = c;
  }
  k += sprintf(buf + k, "\"}\n");
  size_t o = 0;
  while (o < k) { ssize_t w = write(1, buf + o, k - o); if (w <= 0) break; o += w; }
  _exit(strcmp(outcome, "ok") && strcmp(outcome, "expected-panic") && strcmp(outcome, "cut") ? 1 : 0);
}
void sym_bytes(uint8_t *p, size_t n) {
  for (size_t i = 0; i < n; i++) p[i] = used < ninput ? input[used] : 0, used++;
}
void sym_assume(bool c) { if (!c) report("cut", "assumption", 10); }
void sym_end(void) { report("ok", "", 0); }
void sym_assert(bool c, const char *m, size_t n) { if (!c) report("assert", m, n); }
void sym_fail(const char *m, size_t n) { report("assert", m, n); }
void sym_cover(uint32_t k) { if (ncovers < 4096) covers[ncovers++] = k; }
void sym_observe(uint64_t v) {
  for (int i = 0; i < 8; i++) hash = (hash ^ ((v >> (8 * i)) & 255)) * 0x100000001b3ull;
}
uint64_t sym_live(void) { return live_blocks; }
void sym_expect_panic(bool c) { expect_panic_flag = c; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_dump(const char *p, size_t n) { if (verbose) { fwrite(p, 1, n, stderr); fputc('\n', stderr); } }
void sym_native_panic(const char *m, size_t n) {
  if (expect_panic_flag) report("expected-panic", m, n);
  report("panic", m, n);
}

// Threads. Under RUNNER_SCHEDULE (which thread goes on, at every point where that is a choice) one runs at a time, and
// the library is a build of the same IR with a call to sym_point before every atomic operation.
#define MAXT 8
static pthread_t threads[MAXT + 1];
static int nthreads, turn;
static bool finished[MAXT + 1], controlled, yielded;
static uint8_t plan[1 << 16];
static size_t nplan, position;
static __thread int self;
static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t changed = PTHREAD_COND_INITIALIZER;
struct start { void (*f)(uint8_t *); uint8_t *a; int k; };
static int next(void) {
  if (position >= nplan) report("schedule-end", "the schedule was followed to its end", 36);
  if (plan[position] > nthreads) report("schedule-mismatch", "no such thread", 14);
  return plan[position++];
}
static void give(int t) {
  pthread_mutex_lock(&mutex);
  turn = t;
  pthread_cond_broadcast(&changed);
  pthread_mutex_unlock(&mutex);
}
static void await(void) {
  pthread_mutex_lock(&mutex);
  while (turn != self) pthread_cond_wait(&changed, &mutex);
  pthread_mutex_unlock(&mutex);
}
static void *thread_main(void *q) {
  struct start *s = q;
  self = s->k;
  if (controlled) await();
  s->f(s->a);
  quiet = true;
  if (controlled) {
    finished[self] = true;
    give(next());
  }
  return 0;
}
void sym_spawn(void (*f)(uint8_t *), uint8_t *a) {
  struct start *s = __libc_malloc(sizeof *s);
  if (nthreads >= MAXT) abort();
  s->f = f; s->a = a; s->k = ++nthreads;
  quiet = true;
  pthread_create(&threads[nthreads], 0, thread_main, s);
  quiet = false;
}
void sym_join(void) {
  if (controlled) for (;;) {
    bool all = true;
    for (int i = 1; i <= nthreads; i++) all &= finished[i];
    if (all) break;
    give(next());
    await();
  }
  quiet = true;
  for (int i = 1; i <= nthreads; i++) if (threads[i]) pthread_join(threads[i], 0), threads[i] = 0;
  quiet = false;
}
void sym_point(void) {
  if (!controlled || !nthreads) return;
  while (!yielded) {
    int t = next();
    if (t == self) return;
    yielded = true;
    give(t);
    await();
    // whoever was given its turn by a thread at its end has a choice again
  }
  yielded = false;
}
// futex(word, operation, value): who waits goes on, perhaps for no reason, once another thread moved
long sym_syscall(long number, uint32_t *word, int operation, uint32_t value, ...) {
  if (number != 202 || !controlled) { errno = ENOSYS; return -1; }
  if ((operation & 0x7f) != 0 && (operation & 0x7f) != 9) return 0;
  if (!nthreads) return 0;
  while (!yielded) {
    if (*word != value) return 0;
    int t = next();
    if (t == self) return 0;
    yielded = true;
    give(t);
    await();
  }
  yielded = false;
  return 0;
}
void sym_yield(void) { if (controlled) sym_point(); else sched_yield(); }

static void on_signal(int s) {
  if (s == SIGALRM) report("divergence", "time limit", 10);
  if (s == SIGABRT && expect_panic_flag) report("expected-panic", "abort", 5);
  if (s == SIGABRT) report("abort", "SIGABRT", 7);
  char m[32];
  report("memory", m, snprintf(m, 32, "signal %d", s));
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void run(void *lib, const char *entry, const char *hex) {
  void (*f)(void) = dlsym(lib, entry);
  if (!f) { fprintf(stderr, "no entry %s\n", entry); _exit(3); }
  void (*init)(void) = dlsym(lib, "sym_native_init");
  if (init) init();
  ninput = 0;
  for (size_t i = 0; hex[i] && hex[i + 1] && hex[i] > 32; i += 2) input[ninput++] = hexv(hex[i]) * 16 + hexv(hex[i + 1]);
  static char alt[1 << 16];
  stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
  sigaltstack(&ss, 0);
  struct sigaction sa = {.sa_handler = on_signal, .sa_flags = SA_ONSTACK};
  int sigs[] = {SIGALRM, SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
  const char *plan_hex = getenv("RUNNER_SCHEDULE");
  if (plan_hex) {
    controlled = true;
    for (size_t i = 0; plan_hex[i] && plan_hex[i + 1]; i += 2) plan[nplan++] = hexv(plan_hex[i]) * 16 + hexv(plan_hex[i + 1]);
  }
  const char *t = getenv("RUNNER_TIMEOUT");
  alarm(t ? atoi(t) : 20);
  f();
  report("ok", "", 0);
}
int main(int c, char **v) {
  verbose = getenv("RUNNER_VERBOSE") != 0;
  void *lib = dlopen(v[1], RTLD_NOW | RTLD_GLOBAL);
  if (!lib) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  if (strcmp(v[2], "-")) run(lib, v[2], c > 3 ? v[3] : "");
  static char line[1 << 18];
  while (fgets(line, sizeof line, stdin)) {
    char *h = strchr(line, ' ');
    if (h) *h++ = 0; else { line[strcspn(line, "\n")] = 0; h = ""; }
    pid_t p = fork();
    if (!p) run(lib, line, h);
    int st;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { printf("{\"outcome\":\"memory\",\"hash\":\"\",\"covers\":[],\"message\":\"signal %d\"}\n", WTERMSIG(st)); fflush(stdout); }
  }
  return 0;
}
