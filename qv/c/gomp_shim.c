/* A small stand-in for libgomp on plain pthreads, so that ThreadSanitizer sees every
 * fork, join, barrier and lock. Threads start in a random order with random pauses. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

typedef struct { pthread_barrier_t bar; pthread_mutex_t mu; int n;
  long next, end, incr, chunk; unsigned long singles; int loops; int started; } team_t;
static __thread team_t *team; static __thread int tid; static __thread unsigned long my_singles; static __thread int my_loops;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static int default_threads = 4;
static unsigned seed = 1;
long qv_regions, qv_threads;           /* what was observed */
typedef struct { void (*fn)(void*); void *data; team_t *t; int id; unsigned pause; } arg_t;

void qv_seed(unsigned s) { seed = s; }
static void *run(void *p) {
  arg_t *a = p; team = a->t; tid = a->id; my_singles = 0; my_loops = 0;
  for (unsigned i = 0; i < a->pause % 4; ++i) sched_yield();
  if (a->pause % 7 == 0) usleep(a->pause % 300);
  a->fn(a->data);
  return 0;
}
static void go(void (*fn)(void*), void *data, unsigned n, team_t *t) {
  if (team) n = 1;                               /* no nesting */
  if (n == 0) n = default_threads;
  team_t *old = team; int oldtid = tid;
  pthread_mutex_init(&t->mu, 0); pthread_barrier_init(&t->bar, 0, n); t->n = n;
  __atomic_add_fetch(&qv_regions, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&qv_threads, n, __ATOMIC_RELAXED);
  pthread_t *th = malloc(n * sizeof *th); arg_t *a = malloc(n * sizeof *a);
  unsigned off = n ? rand_r(&seed) % n : 0;
  for (unsigned i = 0; i < n; ++i) {
    a[i] = (arg_t){fn, data, t, (int)((i + off) % n), (unsigned)rand_r(&seed)};
    pthread_create(&th[i], 0, run, &a[i]);
  }
  for (unsigned i = 0; i < n; ++i) pthread_join(th[i], 0);
  team = old; tid = oldtid;
  free(th); free(a); pthread_barrier_destroy(&t->bar); pthread_mutex_destroy(&t->mu);
}
void GOMP_parallel(void (*fn)(void*), void *data, unsigned n, unsigned flags) { team_t t = {0}; go(fn, data, n, &t); }
static void par_loop(void (*fn)(void*), void *data, unsigned n, long s, long e, long inc, long chunk) {
  team_t t = {0}; t.next = s; t.end = e; t.incr = inc; t.chunk = chunk > 0 ? chunk : 1; t.loops = 1; t.started = 1; go(fn, data, n, &t);
}
#define PL(name) void name(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { par_loop(fn, d, n, s, e, i, c); }
PL(GOMP_parallel_loop_dynamic) PL(GOMP_parallel_loop_guided) PL(GOMP_parallel_loop_static)
PL(GOMP_parallel_loop_nonmonotonic_dynamic) PL(GOMP_parallel_loop_nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, unsigned f) { par_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, unsigned f) { par_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, unsigned f) { par_loop(fn, d, n, s, e, i, 1); }
static bool next_chunk(long *a, long *b) {
  team_t *t = team; bool ok;
  pthread_mutex_lock(&t->mu);
  ok = t->incr > 0 ? t->next < t->end : t->next > t->end;
  if (ok) { *a = t->next; long b_ = t->next + t->chunk * t->incr;
    if (t->incr > 0 ? b_ > t->end : b_ < t->end) b_ = t->end;
    *b = b_; t->next = b_; }
  pthread_mutex_unlock(&t->mu);
  return ok;
}
static bool loop_start(long s, long e, long inc, long chunk, long *a, long *b) {
  team_t *t = team; static team_t solo;
  if (!t) { solo = (team_t){0}; pthread_mutex_init(&solo.mu, 0); solo.n = 1; team = t = &solo; }
  pthread_mutex_lock(&t->mu);
  if (my_loops == t->loops) { t->loops++; t->next = s; t->end = e; t->incr = inc; t->chunk = chunk > 0 ? chunk : 1; }
  my_loops++;
  pthread_mutex_unlock(&t->mu);
  return next_chunk(a, b);
}
#define LS(k) bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##k##_next(long *a, long *b) { return next_chunk(a, b); }
LS(dynamic) LS(guided) LS(static) LS(nonmonotonic_dynamic) LS(nonmonotonic_guided)
void GOMP_barrier(void) { if (team && team->n > 1) pthread_barrier_wait(&team->bar); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_single_start(void) { if (!team) return true; bool r; pthread_mutex_lock(&team->mu); r = my_singles == team->singles; if (r) team->singles++; my_singles++; pthread_mutex_unlock(&team->mu); return r; }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&crit); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&crit); }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_thread_num(void) { return team ? tid : 0; }
int omp_get_max_threads(void) { return default_threads; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return team != 0; }
void omp_set_num_threads(int n) { if (n > 0) default_threads = n; }
void omp_set_dynamic(int n) {}
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
