/* Runtime of the native replay: follows a schedule found by the engine on the
 * natively compiled code, and detects the violation independently:
 * quarantining allocator (freed and out-of-bounds memory), vector clocks
 * (data races), assertions, deadlocks, missing progress.
 *
 * Exit status: 0 no violation, 10 violation, 11 the execution left the schedule. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define NT 5
typedef uint32_t u32;
typedef uint64_t u64;
typedef uint8_t u8;

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int me;

enum { READY, LOCK, PARK, JOIN, DONE };
static struct {
    int status;
    u32 *wait;
    u32 events;
    u32 raw, nsym, spurious;
    u32 vc[NT], acqf[NT], relf[NT];
    u8 *handle;
    pthread_t th;
} T[NT];
static int nthreads = 1, unfinished = 1, active = 0;

static int nslices, cur;
static int s_tid[1 << 16];
static u32 s_upto[1 << 16];
static struct { u32 tid, seq, w; u64 v; } V[1 << 16];
static int nvals;
static char kind[64];
static u32 code;
static int expect_hang, free_run;
static u64 total, accesses;

static void finish(int st, const char *f, ...) {
    va_list a;
    va_start(a, f);
    char b[512];
    vsnprintf(b, sizeof b, f, a);
    printf("%s %s\n", st == 10 ? "REPRODUCED" : st == 11 ? "DIVERGED" : "CLEAN", b);
    fflush(stdout);
    _exit(st);
}
static void on_signal(int s) {
    if (s == SIGALRM) {
        if (expect_hang) finish(10, "nontermination: no end after the time limit (thread %d, event %u)", me, T[me].events);
        finish(11, "timeout");
    }
    if (s == SIGABRT) finish(10, "panic: the process aborts (thread %d, event %u)", me, T[me].events);
    finish(10, "memory: signal %d (thread %d, event %u)", s, me, T[me].events);
}

/* ------------------------------------------------------------ scheduling */
static int enabled(int t) {
    switch (T[t].status) {
    case READY: return 1;
    case LOCK: return *T[t].wait == 0;
    case PARK: return *T[t].wait == 1;
    case JOIN:
        for (int k = 0; k < nthreads; k++)
            if (k != t && T[k].status != DONE) return 0;
        return 1;
    }
    return 0;
}
static void stuck(void) {
    char b[400] = "";
    for (int k = 0; k < nthreads; k++)
        snprintf(b + strlen(b), sizeof b - strlen(b), " [thread %d: %s]", k,
                 (const char *[]){"ready", "waits for a mutex", "parked", "joins", "done"}[T[k].status]);
    finish(10, "deadlock:%s", b);
}
/* The end of the schedule was reached by the running thread. */
static void advance(void) {
    if (!free_run) {
        cur++;
        if (cur < nslices) {
            active = s_tid[cur];
            pthread_cond_broadcast(&cv);
            return;
        }
        if (!expect_hang) finish(11, "the schedule ended without a violation (thread %d, event %u)", me, T[me].events);
        free_run = 1;
        alarm(10);
    }
    for (int k = 1; k <= nthreads; k++) {
        int t = (me + k) % nthreads;
        if (enabled(t)) {
            active = t;
            pthread_cond_broadcast(&cv);
            return;
        }
    }
    stuck();
}
/* Waits until this thread may perform its next event. */
static void turn(void) {
    pthread_mutex_lock(&mu);
    if (free_run) {
        advance();
    }
    for (;;) {
        if (active != me) {
            pthread_cond_wait(&cv, &mu);
            continue;
        }
        if (free_run || T[me].events < s_upto[cur]) break;
        advance();
    }
    T[me].status = READY;
    if (++total > 3000000 && expect_hang) finish(10, "nontermination: no end after %lu events", total);
    pthread_mutex_unlock(&mu);
}
static void event(void) {
    if (T[me].raw == 0) turn();
    T[me].events++;
}

/* ------------------------------------------------------------ memory */
#define ARENA (8ul << 30)
static u8 *arena, *top;
struct byte { u32 w, r[NT], aw[NT], ar[NT]; u8 wt; };
struct block { u8 *p; size_t n, al; int live, counted; struct byte *sh; };
static struct block B[1 << 18];
static int nb;
static pthread_mutex_t am = PTHREAD_MUTEX_INITIALIZER;
static int leak;
static u32 stale;
static u64 limit = 1 << 26;
static int allow_abort;

static void arena_init(void) {
    if (!arena) top = arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void *vp_alloc(size_t n, size_t al) {
    if (n > limit) return 0;
    pthread_mutex_lock(&am);
    arena_init();
    /* a multiple of the alignment, but not of twice the alignment */
    u8 *p = (u8 *)((((uintptr_t)top + 64 + 2 * al - 1) & ~(2 * al - 1)) + al);
    top = p + n + 64;
    if (nb == 1 << 18 || top > arena + ARENA) finish(11, "out of replay memory");
    B[nb++] = (struct block){p, n, al, 1, leak, 0};
    memset(p, 0xCD, n);
    pthread_mutex_unlock(&am);
    return p;
}
void *vp_alloc_zeroed(size_t n, size_t al) {
    u8 *p = vp_alloc(n, al);
    if (p) memset(p, 0, n);
    return p;
}
static struct block *find(u8 *p) {
    int lo = 0, hi = nb;
    while (lo < hi) {
        int m = (lo + hi) / 2;
        if (B[m].p <= p) lo = m + 1; else hi = m;
    }
    return lo ? &B[lo - 1] : 0;
}
static u32 *join(u32 *a, const u32 *b) {
    for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i];
    return a;
}
enum { NAW, NAR, ATW, ATR };
static void access_(u8 *p, size_t n, int acc) {
    if (!n) return;
    if ((uintptr_t)p < 4096) finish(10, "memory: access at address %p (thread %d, event %u)", p, me, T[me].events);
    if (!arena || p < arena || p >= arena + ARENA) return;
    pthread_mutex_lock(&am);
    struct block *b = find(p);
    if (!b || p + n > b->p + b->n)
        finish(10, "memory: access of %lu bytes outside of any object (thread %d, event %u)", n, me, T[me].events);
    if (!b->live) finish(10, "memory: access of %lu bytes in freed memory (thread %d, event %u)", n, me, T[me].events);
    accesses++;
    if (unfinished > 1 && T[me].raw == 0) {
        if (!b->sh) b->sh = calloc(b->n, sizeof(struct byte));
        u32 *vc = T[me].vc;
        for (size_t i = 0; i < n; i++) {
            struct byte *s = &b->sh[p - b->p + i];
            int bad = s->w > vc[s->wt] && s->wt != me;
            if (acc == NAW) for (int k = 0; k < NT; k++) if (k != me) bad |= s->r[k] > vc[k] || s->aw[k] > vc[k] || s->ar[k] > vc[k];
            if (acc == NAR) for (int k = 0; k < NT; k++) if (k != me) bad |= s->aw[k] > vc[k];
            if (acc == ATW) for (int k = 0; k < NT; k++) if (k != me) bad |= s->r[k] > vc[k];
            if (bad) finish(10, "race: unordered conflicting accesses to offset %ld of an object of %lu bytes (thread %d, event %u)", p - b->p + i, b->n, me, T[me].events);
            u32 c = vc[me];
            if (acc == NAW) { s->w = c; s->wt = me; }
            if (acc == NAR) s->r[me] = c;
            if (acc == ATW) s->aw[me] = c;
            if (acc == ATR) s->ar[me] = c;
        }
    }
    pthread_mutex_unlock(&am);
}
void vp_free(u8 *p, size_t n, size_t al) {
    access_(p, n, NAW);
    pthread_mutex_lock(&am);
    struct block *b = find(p);
    if (!b || b->p != p) finish(10, "memory: free of an invalid pointer");
    if (!b->live) finish(10, "memory: double free (thread %d, event %u)", me, T[me].events);
    if (b->n != n || b->al != al) finish(10, "memory: free with size %lu of an object of %lu bytes", n, b->n);
    b->live = 0;
    memset(p, 0xDD, n);
    pthread_mutex_unlock(&am);
}
void *vp_realloc(u8 *p, size_t n, size_t al, size_t m) {
    u8 *q = vp_alloc(m, al);
    if (!q) return q;
    memcpy(q, p, n < m ? n : m);
    vp_free(p, n, al);
    return q;
}
void vp_leak_start(void) { leak = 1; }
void vp_leak_check(u32 c) {
    for (int i = 0; i < nb; i++)
        if (B[i].live && B[i].counted) finish(10, "leak %u: an allocation of %lu bytes was never freed", c, B[i].n);
    leak = 0;
}

/* ------------------------------------------------------------ clocks */
static struct { u8 *p; u32 c[NT]; } R[1 << 16];
static u32 *rel(u8 *p) {
    u32 h = (u32)((uintptr_t)p * 0x9E3779B97F4A7C15ul >> 40) & 0xffff;
    for (;; h = (h + 1) & 0xffff) {
        if (!R[h].p) R[h].p = p;
        if (R[h].p == p) return R[h].c;
    }
}
static void hb_read(u8 *p, int o) {
    u32 *c = rel(p);
    join(T[me].acqf, c);
    if (o & 1) join(T[me].vc, c);
}
static void hb_write(u8 *p, int o, int rmw) {
    if (unfinished < 2) return;
    u32 *c = rel(p), n[NT];
    memcpy(n, o & 2 ? T[me].vc : T[me].relf, sizeof n);
    if (rmw) join(n, c);
    memcpy(c, n, sizeof n);
    if (o & 2) T[me].vc[me]++;
}
/* the last values each location had before, with their clocks */
static struct { u8 *p; u64 v[3]; u32 c[3][NT]; } O[1 << 16];
static int old(u8 *p) {
    u32 h = (u32)((uintptr_t)p * 0x9E3779B97F4A7C15ul >> 40) & 0xffff;
    for (;; h = (h + 1) & 0xffff) {
        if (!O[h].p) O[h].p = p;
        if (O[h].p == p) return h;
    }
}
static void keep(u8 *p, u64 n) {
    if (unfinished < 2 || T[me].raw || n > 8) return;
    int h = old(p);
    memmove(&O[h].v[1], &O[h].v[0], 2 * sizeof O[h].v[0]);
    memmove(&O[h].c[1], &O[h].c[0], 2 * sizeof O[h].c[0]);
    O[h].v[0] = 0;
    memcpy(&O[h].v[0], p, n);
    memcpy(O[h].c[0], rel(p), sizeof O[h].c[0]);
}
void vp_hb_release(u8 *p) { hb_write(p, 7, 1); }
void vp_hb_acquire(u8 *p) { hb_read(p, 7); }

/* ------------------------------------------------------------ hooks in the code */
void vpx_event(u8 *p, u32 k, u32 o, u64 n) {
    event();
    if (k == 3) {
        if (unfinished > 1) {
            if (o & 1) join(T[me].vc, T[me].acqf);
            if (o & 2) { memcpy(T[me].relf, T[me].vc, sizeof T[me].vc); T[me].vc[me]++; }
        }
        return;
    }
    access_(p, n, k == 0 ? ATR : ATW);
    if (k != 0) keep(p, n);
    if (k != 1) hb_read(p, o);
    if (k != 0) hb_write(p, o, k == 2);
}
/* an atomic load: the schedule may say that it reads an earlier value */
u64 vpx_load(u8 *p, u32 o, u64 n) {
    u32 e = T[me].events;
    event();
    access_(p, n, ATR);
    if (T[me].raw == 0 && unfinished > 1)
        for (u32 a = 1; a <= 3; a++)
            for (int i = 0; i < nvals; i++)
                if (V[i].tid == (u32)me && V[i].seq == (1u << 24 | e << 2 | a) && (V[i].v & 1)) {
                    int h = old(p);
                    join(T[me].acqf, O[h].c[a - 1]);
                    if (o & 1) join(T[me].vc, O[h].c[a - 1]);
                    return O[h].v[a - 1];
                }
    hb_read(p, o);
    u64 x = 0;
    memcpy(&x, p, n);
    return x;
}
void vp_stale(u32 n) { stale = n; }
u32 vp_clock(void) { return T[me].vc[me]; }
_Bool vp_knows(u32 t, u32 c) { return !stale || t == (u32)me || T[me].vc[t] >= c; }
void vp_view_publish(void) {}
void vp_view_learn(void) {}
void vpx_cas(u8 *p, u64 e, u64 n, u32 o1, u32 o2) {
    event();
    u64 m = n == 8 ? ~0ul : (1ul << 8 * n) - 1, x = 0;
    access_(p, n, ATR);
    memcpy(&x, p, n);
    if (x == (e & m)) {
        access_(p, n, ATW);
        keep(p, n);
        hb_read(p, o1);
        hb_write(p, o1, 1);
    } else
        hb_read(p, o2);
}
/* a weak exchange: 1 if it fails for no reason */
u64 vp_sym(u32);
_Bool vpx_weak(u8 *p, u64 e, u64 n, u32 o1, u32 o2) {
    event();
    u64 m = n == 8 ? ~0ul : (1ul << 8 * n) - 1, x = 0;
    access_(p, n, ATR);
    memcpy(&x, p, n);
    int eq = x == (e & m), lose = eq && T[me].spurious > 0 && (vp_sym(1) & 1);
    if (eq && !lose) {
        access_(p, n, ATW);
        keep(p, n);
        hb_read(p, o1);
        hb_write(p, o1, 1);
    } else
        hb_read(p, o2);
    T[me].spurious -= lose;
    return lose;
}
void vp_spurious(u32 n) { T[me].spurious = n; }
void vpx_access(u8 *p, u64 n, u32 w) { access_(p, n, w ? NAW : NAR); }
void vpx_assume(int c) { if (!c) finish(10, "unreachable: a compiler assumption does not hold"); }
void vpx_unreachable(void) { finish(10, "unreachable: reached code the compiler was told is unreachable"); }
void vpx_nop(void *p) { (void)p; }
void vpx_mutex_wake(void *p) { (void)p; }
int vpx_futex_wake(void *p) { (void)p; return 1; }
void vpx_yield(void) { event(); }
struct two { u64 a, b; };
struct two vpx_parallelism(void) { return (struct two){0, 2}; }
struct two vpx_random_keys(void) { return (struct two){0x0123456789abcdef, 0xfedcba9876543210}; }
static u8 *handle(void) {
    if (!T[me].handle) {
        int l = leak;
        leak = 0;
        u8 *p = T[me].handle = vp_alloc_zeroed(64, 8);
        leak = l;
        p[0] = p[8] = 1;
        p[16] = me + 1;
    }
    return T[me].handle;
}
u8 *vpx_thread_current(void) {
    u8 *p = handle();
    ++*(u64 *)p;
    return p;
}
static void block(int st, u32 *p) {
    pthread_mutex_lock(&mu);
    T[me].status = st;
    T[me].wait = p;
    pthread_mutex_unlock(&mu);
}
void vpx_lock_contended(u32 *p) {
    for (;;) {
        event();
        hb_read((u8 *)p, 1);
        u32 x = *p;
        *p = 2;
        hb_write((u8 *)p, 1, 1);
        if (x == 0) return;
        block(LOCK, p);
    }
}
void vpx_park(void) {
    u32 *p = (u32 *)(handle() + 40);
    for (;;) {
        event();
        hb_read((u8 *)p, 1);
        u32 x = *p;
        *p = x == 1 ? 0 : ~0u;
        hb_write((u8 *)p, 1, 1);
        if (x == 1) return;
        block(PARK, p);
    }
}

/* ------------------------------------------------------------ harness */
u64 vp_sym(u32 bits) {
    u32 q = T[me].nsym++;

    for (int i = 0; i < nvals; i++)
        if (V[i].tid == (u32)me && V[i].seq == q && (V[i].w == bits || V[i].w == 0)) return V[i].v;
    return 0;
}
u64 vp_concrete(u64 x) { return x; }
void vp_assume(int c) { if (!c) finish(11, "an assumption does not hold"); }
void vp_fail(u32 c) { finish(10, "assert %u (thread %d, event %u)", c, me, T[me].events); }
/* "kind:code" or "kind:lowest-highest", separated by commas; a kind alone means all its codes */
static int listed(const char *l, u32 k) {
    for (; l && *l; l = strchr(l, ',') ? strchr(l, ',') + 1 : "") {
        if (strncmp(l, "assert", 6)) continue;
        u32 a = 0, b = 0;
        int n = l[6] == ':' ? sscanf(l + 7, "%u-%u", &a, &b) : 0;
        if (n == 0 || (a <= k && k <= (n == 2 ? b : a))) return 1;
    }
    return 0;
}
void vp_assert(int c, u32 k) {
    if (c) return;
    const char *y = getenv("VP_ACCEPT");
    if ((y && *y && !listed(y, k)) || listed(getenv("VP_IGNORE"), k)) return;
    vp_fail(k);
}
u32 vp_thread_id(void) { return me; }
void vp_atomic_begin(void) {
    if (T[me].raw == 0) event();
    T[me].raw++;
}
void vp_atomic_end(void) { T[me].raw--; }
void vp_raw_begin(void) { T[me].raw++; }
void vp_raw_end(void) { T[me].raw--; }
void vp_serial_begin(void) { event(); }
void vp_serial_end(void) {}
void vp_invoke(void) { if (T[me].raw == 0) event(); }
void vp_point(void) { if (T[me].raw == 0) event(); }
void vp_reach(u32 c) { (void)c; }
void vp_allow_abort(int c) { allow_abort = c; }
void vp_alloc_limit(u64 n) { limit = n; }

struct start { int id; void (*f)(u8 *); u8 *arg; };
static void *body(void *x) {
    struct start s = *(struct start *)x;
    me = s.id;
    pthread_mutex_lock(&mu);
    while (active != me) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
    s.f(s.arg);
    pthread_mutex_lock(&mu);
    T[me].status = DONE;
    unfinished--;
    advance();
    pthread_mutex_unlock(&mu);
    return 0;
}
u32 vp_spawn(void (*f)(u8 *), u8 *arg) {
    int id = nthreads++;
    if (unfinished == 1) {
        for (int i = 0; i < nb; i++) { free(B[i].sh); B[i].sh = 0; }
        memset(R, 0, sizeof R);
    }
    memcpy(T[id].vc, T[0].vc, sizeof T[0].vc);
    T[id].vc[id] = 1;
    T[0].vc[0]++;
    unfinished++;
    struct start *s = malloc(sizeof *s);
    *s = (struct start){id, f, arg};
    pthread_create(&T[id].th, 0, body, s);
    return id;
}
void vp_join_all(void) {
    pthread_mutex_lock(&mu);
    T[0].status = JOIN;
    for (;;) {
        int all = unfinished == 1;
        if (active == 0) {
            if (all) break;
            advance();
            continue;
        }
        pthread_cond_wait(&cv, &mu);
    }
    T[0].status = READY;
    pthread_mutex_unlock(&mu);
    for (int k = 1; k < nthreads; k++) {
        pthread_join(T[k].th, 0);
        join(T[0].vc, T[k].vc);
    }
}

int main(int argc, char **argv) {
    /* replay SCENARIO FILE: kind, code, n slices, values */
    FILE *f = fopen(argv[2], "r");
    if (argc < 3 || !f) return 2;
    int n;
    if (fscanf(f, "%63s %u %d", kind, &code, &nslices) != 3 || nslices > 1 << 16) return 2;
    for (int i = 0; i < nslices; i++) if (fscanf(f, "%d %u", &s_tid[i], &s_upto[i]) != 2) return 2;
    if (fscanf(f, "%d", &n) != 1 || n > 4096) return 2;
    for (nvals = 0; nvals < n && nvals < 1 << 16; nvals++) if (fscanf(f, "%u %u %u %lu", &V[nvals].tid, &V[nvals].seq, &V[nvals].w, &V[nvals].v) != 4) return 2;
    fclose(f);
    expect_hang = !strcmp(kind, "deadlock") || !strcmp(kind, "nontermination");
    if (nslices && !expect_hang) s_upto[nslices - 1]++;
    for (int i = 0; i < NT; i++) T[i].vc[i] = i == 0;
    int sg[] = {SIGSEGV, SIGBUS, SIGABRT, SIGALRM, SIGILL, SIGTRAP, SIGFPE};
    static u8 alt[1 << 16];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, 0);
    for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) {
        struct sigaction a = {.sa_handler = on_signal, .sa_flags = SA_ONSTACK};
        sigaction(sg[i], &a, 0);
    }
    alarm(30);
    arena_init();
    void (*sc)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
    if (!sc) return 2;
    /* the thread that runs the scenario reports the first event at its turn */
    active = nslices ? s_tid[0] : 0;
    if (!nslices) free_run = 1;
    sc();
    finish(0, "the scenario ends normally after %u events", T[0].events);
}
/* symbols rustc generates when it links (their names are given at link time) */
int vpx_zero(void) { return 0; }
void vpx_alloc_error(void) {
    if (allow_abort) finish(0, "ends with the expected allocation failure");
    finish(10, "abort: allocation failure");
}
