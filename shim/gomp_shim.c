/*
 * A small OpenMP runtime used in place of libgomp so that the interleaving is chosen by a seed and visible to ThreadSanitizer.
 *
 * - Threads are plain pthreads, created and joined for every parallel region (real happens-before edges and nothing else).
 * - Loop iterations are dealt in shuffled chunks: every thread derives the same chunk list from the seed; chunks are claimed with
 *   a relaxed counter (mode 0) or by a random fixed owner (mode 1), so that dispatching orders nothing that OpenMP does not order.
 * - Random yields and sleeps at dispatch, criticals and region starts.
 * - GRT_SHIM_SEED chooses the schedule; GRT_SHIM_LOG receives one line per parallel region: threads, chunks, iterations, per-thread counts and a hash of who ran what in which order.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>

#define MAXWS 65536
#define MAXT 64
#define MAXCHUNK 4096

typedef unsigned long long ull;
typedef struct {
    int n;
    uint64_t seed;
    unsigned *ctr;            /* one dispatch counter per work-sharing construct */
    pthread_barrier_t bar;
    ull iters[MAXT], chunks[MAXT], hash[MAXT], crit[MAXT];
    ull *order;               /* global order of claims: thread numbers */
    unsigned norder;
} team_t;

typedef struct { int id; team_t *t; unsigned ws; uint64_t rng; 
    /* current loop */
    ull lo, incr, cnt; bool up; unsigned nchunk, mine; ull *start; unsigned *perm; unsigned char *owner; unsigned ctr_id; int mode; } ctx_t;

static __thread ctx_t *cur;
static int g_threads = 0;
static uint64_t g_regions = 0;

static uint64_t rnd(uint64_t *s){ uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t base_seed(void){ const char *e = getenv("GRT_SHIM_SEED"); return e ? strtoull(e, NULL, 10) : 1; }
static void jitter(void){
    if(!cur || cur->t->n < 2) return;
    uint64_t r = rnd(&cur->rng);
    if((r & 7) == 0) sched_yield();
    else if((r & 31) == 1) usleep((r >> 8) % 300);
}

int omp_get_max_threads(void){
    if(g_threads > 0) return g_threads;
    const char *e = getenv("OMP_NUM_THREADS");
    int n = e ? atoi(e) : 4;
    return n < 1 ? 1 : n > MAXT ? MAXT : n;
}
void omp_set_num_threads(int n){ g_threads = n < 1 ? 1 : n > MAXT ? MAXT : n; }
int omp_get_num_threads(void){ return cur ? cur->t->n : 1; }
int omp_get_thread_num(void){ return cur ? cur->id : 0; }
int omp_in_parallel(void){ return cur != NULL && cur->t->n > 1; }
int omp_get_num_procs(void){ return 8; }
int omp_get_level(void){ return cur ? 1 : 0; }
void omp_set_dynamic(int x){ (void)x; }
void omp_set_nested(int x){ (void)x; }
double omp_get_wtime(void){ return 0; }

typedef struct { void (*fn)(void *); void *data; ctx_t c; } start_t;
static void *entry(void *p){
    start_t *s = p;
    ctx_t *old = cur;
    cur = &s->c;
    jitter();
    s->fn(s->data);
    free(s->c.start); free(s->c.perm); free(s->c.owner);
    cur = old;
    return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nthreads, unsigned flags){
    (void)flags;
    int n = nthreads ? (int)nthreads : omp_get_max_threads();
    if(cur) n = 1;             /* nested regions run on one thread */
    if(n > MAXT) n = MAXT;
    team_t *t = calloc(1, sizeof *t);
    uint64_t s = base_seed() * 1000003u + g_regions++;
    t->n = n; t->seed = rnd(&s);
    t->ctr = calloc(MAXWS, sizeof *t->ctr);
    t->order = calloc(MAXCHUNK * 4, sizeof *t->order);
    pthread_barrier_init(&t->bar, NULL, n);
    start_t *st = calloc(n, sizeof *st);
    pthread_t th[MAXT];
    for(int i = 0; i < n; ++i){ st[i].fn = fn; st[i].data = data; st[i].c.id = i; st[i].c.t = t; st[i].c.rng = t->seed ^ (uint64_t)(i + 1) * 0x51ull; }
    for(int i = 1; i < n; ++i) if(pthread_create(&th[i], NULL, entry, &st[i])){ fprintf(stderr, "shim: pthread_create\n"); abort(); }
    entry(&st[0]);
    for(int i = 1; i < n; ++i) pthread_join(th[i], NULL);
    const char *log = getenv("GRT_SHIM_LOG");
    if(log && !cur && n > 1){
        FILE *f = fopen(log, "a");
        if(f){
            ull it = 0, ch = 0, h = 1469598103934665603ull, busy = 0, cr = 0;
            for(int i = 0; i < n; ++i){ it += t->iters[i]; ch += t->chunks[i]; busy += t->iters[i] > 0; cr += t->crit[i]; }
            unsigned m = t->norder < MAXCHUNK * 4 ? t->norder : MAXCHUNK * 4;
            for(unsigned i = 0; i < m; ++i) h = (h ^ t->order[i]) * 1099511628211ull;
            fprintf(f, "region threads=%d busy=%llu chunks=%llu iters=%llu crit=%llu order=%016llx\n", n, busy, ch, it, cr, h);
            fclose(f);
        }
    }
    pthread_barrier_destroy(&t->bar);
    free(st); free(t->order); free(t->ctr); free(t);
}
void GOMP_barrier(void){ if(cur && cur->t->n > 1) pthread_barrier_wait(&cur->t->bar); }

/* ------------------------------------------------ loops ------------------------------------------------ */
static team_t solo = {.n = 1};
static __thread ctx_t solo_ctx;

static void ws_start(bool up, ull start, ull end, ull incr, bool unit){
    ctx_t *c = cur;
    if(!c){ c = &solo_ctx; c->t = &solo; c->ws = 0; }
    c->up = up; c->lo = start; c->incr = incr;
    ull cnt = 0;
    if(up){ if(end > start) cnt = (end - start + incr - 1) / incr; }
    else { ull d = -incr; if(start > end) cnt = (start - end + d - 1) / d; }
    c->cnt = cnt;
    uint64_t s = c->t->seed + 77u * ++c->ws;
    c->ctr_id = c->ws;
    if(c->ws >= MAXWS){ fprintf(stderr, "shim: too many loops in one region\n"); abort(); }
    ull size = unit ? 1 : 1 + rnd(&s) % 3;
    if(cnt / size > MAXCHUNK) size = cnt / MAXCHUNK + 1;
    unsigned n = (unsigned)((cnt + size - 1) / size);
    c->nchunk = n; c->mine = 0; c->mode = (int)(rnd(&s) % 3);
    c->start = realloc(c->start, (n + 1) * sizeof *c->start);
    c->perm = realloc(c->perm, (n + 1) * sizeof *c->perm);
    c->owner = realloc(c->owner, n + 1);
    for(unsigned i = 0; i <= n; ++i) c->start[i] = i == n ? cnt : i * size;
    for(unsigned i = 0; i < n; ++i){ c->perm[i] = i; c->owner[i] = (unsigned char)(rnd(&s) % c->t->n); }
    if(c->mode != 2) for(unsigned i = n; i > 1; --i){ unsigned j = rnd(&s) % i; unsigned x = c->perm[i - 1]; c->perm[i - 1] = c->perm[j]; c->perm[j] = x; }
}
static bool ws_next(ull *a, ull *b){
    ctx_t *c = cur ? cur : &solo_ctx;
    team_t *t = c->t;
    jitter();
    unsigned i;
    if(t == &solo){ if(c->mine >= c->nchunk) return false; i = c->mine++; }
    else if(c->mode == 1){
        while(c->mine < c->nchunk && c->owner[c->mine] != c->id) c->mine++;
        if(c->mine >= c->nchunk) return false;
        i = c->mine++;
    } else {
        i = __atomic_fetch_add(&t->ctr[c->ctr_id], 1, __ATOMIC_RELAXED);
        if(i >= c->nchunk) return false;
    }
    unsigned k = c->perm[i];
    *a = c->lo + c->start[k] * c->incr;
    *b = c->lo + c->start[k + 1] * c->incr;
    if(t != &solo){
        t->iters[c->id] += c->start[k + 1] - c->start[k]; t->chunks[c->id]++;
        unsigned o = __atomic_fetch_add(&t->norder, 1, __ATOMIC_RELAXED);
        if(o < MAXCHUNK * 4) t->order[o] = ((ull)k << 8) | (ull)c->id;
    }
    return true;
}

#define ULL_LOOP(NAME) \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull inc, ull chunk, ull *a, ull *b){ (void)chunk; ws_start(up, s, e, inc, false); return ws_next(a, b); } \
bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b){ return ws_next(a, b); }
#define LONG_LOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long inc, long chunk, long *a, long *b){ (void)chunk; \
    /* counted from zero, shifted back */ \
    ws_start(true, 0, inc > 0 ? (s < e ? (ull)(e - s) : 0) : (s > e ? (ull)(s - e) : 0), (ull)(inc > 0 ? inc : -inc), false); \
    loop_base = s; loop_neg = inc <= 0; return GOMP_loop_##NAME##_next(a, b); } 
static __thread long loop_base; static __thread bool loop_neg;
static bool long_next(long *a, long *b){ ull x, y; if(!ws_next(&x, &y)) return false; *a = loop_neg ? loop_base - (long)x : loop_base + (long)x; *b = loop_neg ? loop_base - (long)y : loop_base + (long)y; return true; }
#define LONG_NEXT(NAME) bool GOMP_loop_##NAME##_next(long *a, long *b){ return long_next(a, b); }
#define PAR_LOOP(NAME) \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned nt, long s, long e, long inc, long chunk, unsigned flags){ \
    (void)chunk; par_loop(fn, data, nt, s, e, inc, flags); }
typedef struct { void (*fn)(void *); void *data; long s, e, inc; } pl_t;
static void pl_entry(void *p){ pl_t *q = p; 
    if(q->inc > 0) ws_start(true, 0, q->s < q->e ? (ull)(q->e - q->s) : 0, (ull)q->inc, false);
    else ws_start(true, 0, q->s > q->e ? (ull)(q->s - q->e) : 0, (ull)(-q->inc), false);
    loop_base = q->s; loop_neg = q->inc <= 0;
    q->fn(q->data); }
static void par_loop(void (*fn)(void *), void *data, unsigned nt, long s, long e, long inc, unsigned flags){ pl_t q = {fn, data, s, e, inc}; GOMP_parallel(pl_entry, &q, nt, flags); }

#define EACH(X) X(static) X(dynamic) X(guided) X(nonmonotonic_dynamic) X(nonmonotonic_guided) 
EACH(ULL_LOOP)
EACH(LONG_NEXT)
EACH(LONG_LOOP)
EACH(PAR_LOOP)
/* schedule(runtime): no chunk argument */
#define RT(NAME) \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull inc, ull *a, ull *b){ ws_start(up, s, e, inc, false); return ws_next(a, b); } \
bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b){ return ws_next(a, b); } \
LONG_NEXT(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long inc, long *a, long *b){ ws_start(true, 0, inc > 0 ? (s < e ? (ull)(e - s) : 0) : (s > e ? (ull)(s - e) : 0), (ull)(inc > 0 ? inc : -inc), false); loop_base = s; loop_neg = inc <= 0; return long_next(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *data, unsigned nt, long s, long e, long inc, unsigned flags){ par_loop(fn, data, nt, s, e, inc, flags); }
RT(runtime)
RT(maybe_nonmonotonic_runtime)
RT(nonmonotonic_runtime)

void GOMP_loop_end(void){ jitter(); GOMP_barrier(); }
void GOMP_loop_end_nowait(void){ jitter(); }

bool GOMP_single_start(void){
    if(!cur || cur->t->n == 1) return true;
    unsigned id = ++cur->ws;
    if(id >= MAXWS) abort();
    jitter();
    return __atomic_fetch_add(&cur->t->ctr[id], 1, __ATOMIC_RELAXED) == 0;
}

/* ------------------------------------------------ sections --------------------------------------------- */
unsigned GOMP_sections_start(unsigned n){ ull a, b; ws_start(true, 1, n + 1ull, 1, true); return ws_next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void){ ull a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void){ GOMP_barrier(); }
void GOMP_sections_end_nowait(void){}

/* ------------------------------------------------ critical --------------------------------------------- */
static pthread_mutex_t anon = PTHREAD_MUTEX_INITIALIZER, atomic_lock = PTHREAD_MUTEX_INITIALIZER;
static struct { void *key; pthread_mutex_t m; } named[64];
static pthread_mutex_t *find(void *key){
    for(int i = 0; i < 64; ++i){
        void *k = __atomic_load_n(&named[i].key, __ATOMIC_RELAXED);
        if(k == key) return &named[i].m;
        if(k == NULL){
            void *e = NULL;
            if(__atomic_compare_exchange_n(&named[i].key, &e, key, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED) || e == key) return &named[i].m;
        }
    }
    abort();
}
static void lock(pthread_mutex_t *m){ jitter(); pthread_mutex_lock(m); if(cur) cur->t->crit[cur->id]++; }
void GOMP_critical_start(void){ lock(&anon); }
void GOMP_critical_end(void){ pthread_mutex_unlock(&anon); jitter(); }
void GOMP_critical_name_start(void **p){ lock(find(p)); }
void GOMP_critical_name_end(void **p){ pthread_mutex_unlock(find(p)); jitter(); }
void GOMP_atomic_start(void){ lock(&atomic_lock); }
void GOMP_atomic_end(void){ pthread_mutex_unlock(&atomic_lock); }

/* locks */
void omp_init_lock(void **l){ pthread_mutex_t *m = malloc(sizeof *m); pthread_mutex_init(m, NULL); *l = m; }
void omp_destroy_lock(void **l){ pthread_mutex_destroy(*l); free(*l); }
void omp_set_lock(void **l){ lock(*l); }
void omp_unset_lock(void **l){ pthread_mutex_unlock(*l); }
