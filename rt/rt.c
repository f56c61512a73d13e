/* Native counterpart of the engine's intrinsics and scheduler, for replaying a
 * trace on machine code compiled from the very IR the engine executed. One
 * thread runs at a time; the trace says which. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef struct { char k; uint32_t v; uint8_t *b; size_t n; } Ent;
static Ent *ents;
static size_t nents, at;
enum { RUN, FUTEX, JOIN, DONE };
#define MAXT 64
static struct { int st; uintptr_t addr; uint32_t join; pthread_t pt; void *res; } T[MAXT];
static uint32_t nt = 1, turn;
static int started;
static __thread uint32_t me;
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t CV = PTHREAD_COND_INITIALIZER;

static void out(int rc, const char *tag, const char *m, size_t n) {
    fflush(stdout);
    printf("%s %.*s\n", tag, (int)n, m);
    fflush(stdout);
    _exit(rc);
}
static void diverged(const char *w) { out(9, "REPLAY-DIVERGED", w, strlen(w)); }
static Ent *next(char k, const char *w) {
    if (at >= nents || ents[at].k != k) diverged(w);
    return &ents[at++];
}
static void load(void) {
    FILE *f = fopen(getenv("VERIF_REPLAY") ? getenv("VERIF_REPLAY") : "", "r");
    if (!f) { fprintf(stderr, "no replay file\n"); exit(2); }
    char *l = 0;
    size_t cap = 0;
    while (getline(&l, &cap, f) >= 0) {
        if (l[1] != ' ' || (l[0] != 'b' && l[0] != 'c' && l[0] != 's')) continue;
        ents = realloc(ents, (nents + 1) * sizeof *ents);
        Ent *e = &ents[nents++];
        memset(e, 0, sizeof *e);
        e->k = l[0];
        if (l[0] == 'b') {
            size_t n = strcspn(l + 2, " \n") / 2;
            e->b = malloc(n + 1);
            e->n = n;
            for (size_t i = 0; i < n; i++) { unsigned x; sscanf(l + 2 + 2 * i, "%2x", &x); e->b[i] = x; }
        } else e->v = strtoul(l + 2, 0, 10);
    }
    fclose(f);
}
void sym_bytes(uint8_t *p, size_t n, const char *name, size_t nl) {
    if (!n) return;
    Ent *e = next('b', "bytes");
    if (e->n != n) diverged("number of bytes");
    memcpy(p, e->b, n);
}
uint32_t sym_choose(uint32_t n) {
    Ent *e = next('c', "choose");
    if (e->v >= n) diverged("choice");
    return e->v;
}
void sym_assume(_Bool c) { if (!c) diverged("assumption does not hold"); }
void sym_fail(const char *m, size_t n) { out(3, "REPLAY-VIOLATION", m, n); }
void sym_assert(_Bool c, const char *m, size_t n) { if (!c) sym_fail(m, n); }
void sym_reach(const char *m, size_t n) {}
void sym_note(const char *m, size_t n, const uint8_t *p, size_t k) {
    printf("NOTE %.*s ", (int)n, m);
    for (size_t i = 0; i < k; i++) printf("%02x", p[i]);
    printf("\n");
}
_Bool sym_known(const char *m, size_t n) {
    const char *k = getenv("VERIF_KNOWN");
    while (k && *k) {
        size_t l = strcspn(k, ";");
        if (l == n && !memcmp(k, m, n)) return 1;
        k += l;
        if (*k) k++;
    }
    return 0;
}
uint32_t sym_tier(void) { const char *t = getenv("VERIF_SYMTIER"); return t ? atoi(t) : 0; }
uint32_t sym_self(void) { return me; }

/* ---- scheduling: called with G held ---- */
static uint32_t alive(void) { uint32_t n = 0; for (uint32_t i = 0; i < nt; i++) n += T[i].st != DONE; return n; }
static void give(uint32_t t) {
    if (t >= nt || T[t].st != RUN) diverged("thread to run is not ready");
    turn = t;
    pthread_cond_broadcast(&CV);
}
static void await_(void) { while (turn != me) pthread_cond_wait(&CV, &G); }
static void resched(void) {
    int any = 0;
    for (uint32_t i = 0; i < nt; i++) any |= T[i].st == RUN;
    if (!any) sym_fail("deadlock: no thread can run", 27);
    give(next('s', "schedule")->v);
}
void sym_yield(void) {
    pthread_mutex_lock(&G);
    if (started && T[me].st != DONE && alive() >= 2) {
        uint32_t t = next('s', "schedule at a yield")->v;
        if (t != me) { give(t); await_(); }
    }
    pthread_mutex_unlock(&G);
}
typedef struct { void *(*f)(void *); void *arg; uint32_t id; int c; } Start;
static void *run(void *p) {
    Start s = *(Start *)p;
    free(p);
    me = s.id;
    pthread_mutex_lock(&G);
    await_();
    pthread_mutex_unlock(&G);
    void *r = s.f(s.arg);
    pthread_mutex_lock(&G);
    T[me].st = DONE;
    T[me].res = r;
    for (uint32_t i = 0; i < nt; i++) if (T[i].st == JOIN && T[i].join == me) T[i].st = RUN;
    resched();
    pthread_mutex_unlock(&G);
    return r;
}
static uint32_t spawn(void *(*f)(void *), void *arg, int c) {
    if (nt >= MAXT) diverged("too many threads");
    Start *s = malloc(sizeof *s);
    pthread_mutex_lock(&G);
    uint32_t id = nt++;
    started = 1;
    T[id].st = RUN;
    *s = (Start){f, arg, id, c};
    pthread_mutex_unlock(&G);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 64 << 20);
    if (pthread_create(&T[id].pt, &a, run, s)) diverged("no thread");
    pthread_detach(T[id].pt);
    return id;
}
uint32_t sym_spawn(void *(*f)(void *), void *arg) { return spawn(f, arg, 0); }
void sym_join(uint32_t id) {
    pthread_mutex_lock(&G);
    while (T[id].st != DONE) {
        T[me].st = JOIN;
        T[me].join = id;
        resched();
        await_();
    }
    pthread_mutex_unlock(&G);
}
int rt_pthread_create(uint64_t *p, void *attr, void *(*f)(void *), void *arg) { *p = spawn(f, arg, 1); return 0; }
int rt_pthread_join(uint64_t id, void **r) { sym_join(id); if (r) *r = T[id].res; return 0; }
uint64_t rt_pthread_self(void) { return me; }
long rt_syscall(long n, uintptr_t p, long op, long v, long a, long b, long c) {
    if (n != 202) { errno = ENOSYS; return -1; }
    pthread_mutex_lock(&G);
    long r = 0;
    switch (op & 0x7f) {
    case 0: case 9:
        if (*(volatile uint32_t *)p != (uint32_t)v) { r = -1; errno = EAGAIN; break; }
        T[me].st = FUTEX;
        T[me].addr = p;
        resched();
        await_();
        break;
    case 1: case 10:
        for (uint32_t i = 0; i < nt && v > 0; i++)
            if (T[i].st == FUTEX && T[i].addr == p) { T[i].st = RUN; v--; r++; }
        break;
    default: diverged("futex operation");
    }
    pthread_mutex_unlock(&G);
    return r;
}
int rt_clock_gettime(int c, int64_t *p) { p[0] = 1700000000; p[1] = 1000; return 0; }
int rt_zero(void) { return 0; }
ssize_t rt_write(int fd, const void *p, size_t n) { return n; }
ssize_t rt_writev(int fd, const void *p, int n) { return n; }
ssize_t rt_getrandom(void *p, size_t n, unsigned f) { return -1; }
/* ---- what rustc supplies at the final link, and what the engine replaces ---- */
void *rt_alloc(size_t n, size_t a) {
    void *p = 0;
    if (posix_memalign(&p, a < 8 ? 8 : a, n ? n : 1)) abort();
    return p;
}
void *rt_alloc_zeroed(size_t n, size_t a) { void *p = rt_alloc(n, a); memset(p, 0, n); return p; }
void rt_dealloc(void *p, size_t n, size_t a) { free(p); }
void *rt_realloc(void *p, size_t o, size_t a, size_t n) {
    void *q = rt_alloc(n, a);
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
void rt_nop(void) {}
uint64_t rt_hash(void) { return 0; }
typedef struct { uint64_t a, b; } Two;
Two rt_keys(void) { return (Two){1, 2}; }
void rt_panic(void) { sym_fail("panic", 5); }
void rt_abort(void) { sym_fail("abort", 5); }

extern void rt_entry(const char *name);
typedef void (*Fn)(void);
struct E { const char *n; Fn f; };
extern struct E rt_entries[];
int main(int c, char **v) {
    if (c < 2) return 2;
    load();
    for (struct E *e = rt_entries; e->n; e++)
        if (!strcmp(e->n, v[1])) {
            e->f();
            printf("REPLAY-OK\n");
            fflush(stdout);
            _exit(0);
        }
    fprintf(stderr, "no entry %s\n", v[1]);
    return 2;
}
