/* A stand-in for the part of libgomp that prange loops call, so that ThreadSanitizer understands them (its model knows
   pthreads, not libgomp) and so that the assignment of iterations to threads is ours to choose.

   Which thread runs which iteration is a fixed function of (policy, region, iteration): no counter is shared, so no
   happens-before edge arises between threads inside a loop, and any two iterations run by different threads race if
   they touch the same memory, whatever the timing. This file is compiled without instrumentation. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

static int max_threads = 4;
static int policy = 0;          /* 0 round robin, 1 hashed, 2 blocks, 3 reversed round robin, 4 all but one on the last thread */
static uint64_t seed = 1;
static int delay_us = 0;
static long regions, iterations, shared_regions, loops;
static uint64_t trace;          /* hash over (region size, threads, owners) */

struct team { int n; long region; pthread_barrier_t bar; int arrived; void (*fn)(void *); void *data; };
struct arg { struct team *t; int tid; };
static __thread struct team *T;
static __thread int tid;
static __thread long cur, end_, incr_, k_, total_, chunk_;

void omp_set_num_threads(int n) { if (n > 0) max_threads = n; }
int omp_get_max_threads(void) { return max_threads; }
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return T ? T->n : 1; }
int omp_in_parallel(void) { return T != 0; }
void shim_policy(int p, uint64_t s, int us) { policy = p; seed = s; delay_us = us; }
void shim_stats(long *out, uint64_t *tr) { out[0] = regions; out[1] = iterations; out[2] = shared_regions; out[3] = loops; *tr = trace; }

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; return x ^ (x >> 33); }

static int owner(long k)
{
    int n = T->n;
    long m = total_;
    switch (policy) {
    case 1: return (int)(mix(seed * 1000003u + (uint64_t)T->region * 7919u + (uint64_t)k) % (uint64_t)n);
    case 2: return m ? (int)(k * n / m) : 0;
    case 3: return (int)((m - 1 - k) % n);
    case 4: return k == (long)(mix(seed + (uint64_t)T->region) % (uint64_t)(m ? m : 1)) ? 0 : n - 1;
    default: return (int)(k % n);
    }
}

static bool advance(long *is, long *ie)
{
    for (; k_ < total_; k_++)
        if (owner(k_) == tid) {
            *is = cur + k_ * incr_;
            *ie = *is + incr_;
            if (delay_us) {
                struct timespec ts = { 0, (long)(mix(seed ^ (uint64_t)(k_ * 131 + tid)) % (uint64_t)delay_us) * 1000 };
                nanosleep(&ts, 0);
            }
            k_++;
            return true;
        }
    return false;
}

bool GOMP_loop_nonmonotonic_dynamic_next(long *is, long *ie) { return advance(is, ie); }
bool GOMP_loop_nonmonotonic_dynamic_start(long start, long end, long incr, long chunk, long *is, long *ie)
{
    cur = start; end_ = end; incr_ = incr; chunk_ = chunk; k_ = 0;
    total_ = incr > 0 ? (end > start ? (end - start + incr - 1) / incr : 0) : (start > end ? (start - end - incr - 1) / (-incr) : 0);
    if (tid == 0) {
        int first = -1; bool many = false;
        loops++; iterations += total_;
        for (long k = 0; k < total_; k++) {
            int o = owner(k);
            if (first < 0) first = o;
            many |= o != first;
            trace = mix(trace * 31 + (uint64_t)o + 1);
        }
        shared_regions += many;
        trace = mix(trace * 31 + (uint64_t)total_ * 64 + (uint64_t)T->n);
    }
    /* everyone is in the loop before anyone starts on it: plain spinning, invisible to the race detector */
    __atomic_add_fetch(&T->arrived, 1, __ATOMIC_RELAXED);
    while (__atomic_load_n(&T->arrived, __ATOMIC_RELAXED) % T->n != 0) { struct timespec ts = { 0, 1000 }; nanosleep(&ts, 0); if (__atomic_load_n(&T->arrived, __ATOMIC_RELAXED) >= T->n) break; }
    return advance(is, ie);
}
bool GOMP_loop_dynamic_start(long a, long b, long c, long d, long *e, long *f) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, d, e, f); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return advance(a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long c, long d, long *e, long *f) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, d, e, f); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return advance(a, b); }
bool GOMP_loop_guided_start(long a, long b, long c, long d, long *e, long *f) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, d, e, f); }
bool GOMP_loop_guided_next(long *a, long *b) { return advance(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long c, long *e, long *f) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, 1, e, f); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return advance(a, b); }
bool GOMP_loop_runtime_start(long a, long b, long c, long *e, long *f) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, c, 1, e, f); }
bool GOMP_loop_runtime_next(long *a, long *b) { return advance(a, b); }
void GOMP_loop_end_nowait(void) { }
void GOMP_barrier(void) { if (T) pthread_barrier_wait(&T->bar); }
void GOMP_loop_end(void) { GOMP_barrier(); }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
bool GOMP_single_start(void) { return tid == 0; }

static void *work(void *p)
{
    struct arg *a = p;
    T = a->t; tid = a->tid;
    a->t->fn(a->t->data);
    T = 0; tid = 0;
    return 0;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    (void)flags;
    if (T) {                    /* nested: one thread */
        struct team *old = T; int oid = tid; struct team one = { 1, old->region, {{0}}, 0, fn, data };
        pthread_barrier_init(&one.bar, 0, 1);
        T = &one; tid = 0; fn(data); T = old; tid = oid;
        pthread_barrier_destroy(&one.bar);
        return;
    }
    if (n == 0) n = (unsigned)max_threads;
    struct team t = { (int)n, ++regions, {{0}}, 0, fn, data };
    pthread_barrier_init(&t.bar, 0, n);
    pthread_t *th = calloc(n, sizeof *th);
    struct arg *a = calloc(n, sizeof *a);
    for (unsigned i = 1; i < n; i++) { a[i].t = &t; a[i].tid = (int)i; pthread_create(&th[i], 0, work, &a[i]); }
    T = &t; tid = 0;
    fn(data);
    T = 0;
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], 0);
    pthread_barrier_destroy(&t.bar);
    free(th); free(a);
}

/* the rest of what a parallel loop may reasonably ask for */
int omp_get_num_procs(void) { return max_threads; }
int omp_get_thread_limit(void) { return 64; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_nested(void) { return 0; }
void omp_set_nested(int d) { (void)d; }
int omp_get_level(void) { return T != 0; }
int omp_get_active_level(void) { return T != 0; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void omp_init_lock(pthread_mutex_t **l) { *l = malloc(sizeof **l); pthread_mutex_init(*l, 0); }
void omp_destroy_lock(pthread_mutex_t **l) { pthread_mutex_destroy(*l); free(*l); }
void omp_set_lock(pthread_mutex_t **l) { pthread_mutex_lock(*l); }
void omp_unset_lock(pthread_mutex_t **l) { pthread_mutex_unlock(*l); }
int omp_test_lock(pthread_mutex_t **l) { return pthread_mutex_trylock(*l) == 0; }
