/* Native side of the harness interface: runs a harness entry on given input values (and, in the
 * instrumented build, under a given schedule), each vector in a child process of its own. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ allocator
 * Every block ends at a guard page; freed blocks become inaccessible (or, with SYM_REUSE, are handed
 * out again last-in first-out for the same size), so stale pointers fault. */
#define PG 4096ul
#define ARENA (1ul << 35)
static char *arena;
static size_t brk_pg;
static uint64_t *sizes; /* per page index of the block's first page */
static uint32_t *aligns;
static uint64_t live;
static int reuse;
static struct { size_t size, al; char *p; } *fl;
static size_t nfl;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static void arena_init(void) {
    if (arena) return;
    char *a = mmap(0, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sizes = mmap(0, ARENA / PG * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    aligns = mmap(0, ARENA / PG * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    fl = mmap(0, sizeof(*fl) << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a == MAP_FAILED || sizes == MAP_FAILED || aligns == MAP_FAILED || fl == MAP_FAILED) abort();
    arena = a;
}
static void *xalloc(size_t n, size_t al, int zero) {
    if (al < 16) al = 16;
    pthread_mutex_lock(&mu);
    arena_init();
    live++;
    if (reuse) {
        for (size_t i = nfl; i-- > 0;)
            if (fl[i].size == n && fl[i].al == al) {
                char *p = fl[i].p;
                memmove(fl + i, fl + i + 1, (nfl - i - 1) * sizeof(*fl));
                nfl--;
                pthread_mutex_unlock(&mu);
                memset(p, zero ? 0 : 0xA5, n);
                sizes[((size_t)(p - arena)) / PG] = n + 1;
                return p;
            }
    }
    size_t need = ((n + al - 1) / al * al + PG - 1) / PG;
    if (!need) need = 1;
    if (al > PG) { pthread_mutex_unlock(&mu); return 0; }
    if ((brk_pg + need + 2) * PG > ARENA) { pthread_mutex_unlock(&mu); return 0; }
    char *b = arena + brk_pg * PG;
    if (mprotect(b, need * PG, PROT_READ | PROT_WRITE)) { pthread_mutex_unlock(&mu); return 0; }
    brk_pg += need + 1;
    char *p = b + need * PG - (n + al - 1) / al * al;
    if (n == 0) p = b + need * PG - al;
    size_t ix = ((size_t)(p - arena)) / PG;
    sizes[ix] = n + 1;
    aligns[ix] = al;
    pthread_mutex_unlock(&mu);
    if (!zero) memset(p, 0xA5, n);
    return p;
}
void *malloc(size_t n) { return xalloc(n, 16, 0); }
void *calloc(size_t a, size_t b) { return xalloc(a * b, 16, 1); }
int posix_memalign(void **o, size_t al, size_t n) { *o = xalloc(n, al, 0); return *o ? 0 : ENOMEM; }
void *aligned_alloc(size_t al, size_t n) { return xalloc(n, al, 0); }
void *memalign(size_t al, size_t n) { return xalloc(n, al, 0); }
static void bad(const char *m);
void free(void *p) {
    if (!p) return;
    size_t off = (char *)p - arena;
    if (off >= ARENA || sizes[off / PG] == 0) { bad("double free or free of a pointer that is not a heap block"); return; }
    pthread_mutex_lock(&mu);
    size_t n = sizes[off / PG] - 1, al = aligns[off / PG];
    sizes[off / PG] = 0;
    live--;
    if (reuse && nfl < (1 << 20)) {
        memset(p, 0xDD, n);
        fl[nfl].size = n; fl[nfl].al = al; fl[nfl].p = p; nfl++;
    } else {
        char *b = (char *)((uintptr_t)p / PG * PG);
        size_t pages = ((size_t)((char *)p - b) + (n ? n : 1) + PG - 1) / PG;
        mprotect(b, pages * PG, PROT_NONE);
        madvise(b, pages * PG, MADV_DONTNEED);
    }
    pthread_mutex_unlock(&mu);
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    size_t old = sizes[((size_t)((char *)p - arena)) / PG] - 1;
    void *q = malloc(n);
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}

/* ------------------------------------------------------------------ environment */
static uint64_t rng, clk = 1700000000000000000ull;
static int fixed_env;
ssize_t getrandom(void *buf, size_t n, unsigned f) {
    if (!fixed_env) return syscall(SYS_getrandom, buf, n, f);
    unsigned char *o = buf;
    size_t k = 0;
    while (k < n) {
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        uint64_t r = rng * 0x2545F4914F6CDD1Dull;
        for (int i = 0; i < 8 && k < n; i++) o[k++] = (unsigned char)(r >> (8 * i));
    }
    return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!fixed_env) return syscall(SYS_clock_gettime, c, t);
    clk += 1000;
    t->tv_sec = clk / 1000000000ull;
    t->tv_nsec = clk % 1000000000ull;
    return 0;
}

static void pass_time(const struct timespec *t, int absolute) {
    uint64_t d = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
    if (!absolute) clk += d; else if (clk < d) clk = d;
}
int nanosleep(const struct timespec *t, struct timespec *r) {
    if (!fixed_env) return syscall(SYS_nanosleep, t, r);
    pass_time(t, 0);
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) {
    if (!fixed_env) return syscall(SYS_clock_nanosleep, c, f, t, r) ? errno : 0;
    pass_time(t, f & 1);
    return 0;
}

/* ------------------------------------------------------------------ inputs and results */
struct in { char name[96]; uint64_t v; };
static struct in ins[4096];
static int nin;
static struct { char name[96]; int n; } occ[512];
static int nocc;
#define MAXOBS 65536
struct res { int status; char msg[512]; int nobs; uint64_t obs[MAXOBS]; };
static struct res *res;
enum { RUNNING, OK, CHECK, CUT, DEADLOCK, BADMEM };

static void finish(int st, const char *m) {
    res->status = st;
    if (m) { strncpy(res->msg, m, sizeof res->msg - 1); }
    _exit(0);
}
static void bad(const char *m) { if (res) finish(BADMEM, m); abort(); }

static uint64_t lookup(const char *p, size_t n) {
    char key[96];
    if (n > 70) n = 70;
    int o = -1;
    for (int i = 0; i < nocc; i++)
        if (strlen(occ[i].name) == n && !memcmp(occ[i].name, p, n)) o = i;
    if (o < 0) { o = nocc++; memcpy(occ[o].name, p, n); occ[o].name[n] = 0; occ[o].n = 0; }
    if (occ[o].n == 0) snprintf(key, sizeof key, "%.*s", (int)n, p);
    else snprintf(key, sizeof key, "%.*s#%d", (int)n, p, occ[o].n);
    occ[o].n++;
    for (int i = 0; i < nin; i++) if (!strcmp(ins[i].name, key)) return ins[i].v;
    return 0;
}
uint64_t sym_int(uint32_t bits, const char *p, size_t n) { uint64_t v = lookup(p, n); return bits < 64 ? v & ((1ull << bits) - 1) : v; }
uint64_t sym_choose(uint64_t k, const char *p, size_t n) { uint64_t v = lookup(p, n); if (v >= k) finish(CUT, "choice out of range"); return v; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_assume(_Bool c) { if (!c) finish(CUT, "assumption"); }
void sym_check(_Bool c, const char *p, size_t n) {
    if (!c) { char b[512]; snprintf(b, sizeof b, "%.*s", (int)(n > 500 ? 500 : n), p); finish(CHECK, b); }
}
void sym_cover(const char *p, size_t n) { (void)p; (void)n; }
void sym_note(const char *p, size_t n) { (void)p; (void)n; }
void sym_observe(uint64_t v) { if (res->nobs < MAXOBS) res->obs[res->nobs++] = v; }
uint64_t sym_live_heap(void) { return live; }
void sym_clock(uint64_t v) { clk = v; }

/* ------------------------------------------------------------------ schedule */
#define MAXT 16
enum { T_RUN, T_FUTEX, T_JOIN, T_DONE };
static pthread_mutex_t bm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t bc = PTHREAD_COND_INITIALIZER;
static int cur, nth = 1, st[MAXT], jt[MAXT];
static uint32_t *fx[MAXT];
static int fq[MAXT], nfq;
static pthread_t pt[MAXT];
static struct { int t; long n; } seg[65536];
static int nseg, k;
static long cnt;
static __thread int me;
static pthread_key_t endkey;

static void wait_turn(void) { while (cur != me) pthread_cond_wait(&bc, &bm); }
static void pass_to(int t) { k++; cnt = 0; cur = t; pthread_cond_broadcast(&bc); }
static void block_switch(void) { /* bm held; this thread cannot continue */
    int t = -1;
    if (k + 1 < nseg && seg[k + 1].t < nth && seg[k + 1].t != me && st[seg[k + 1].t] == T_RUN) t = seg[k + 1].t;
    for (int i = 0; i < nth && t < 0; i++) if (i != me && st[i] == T_RUN) t = i;
    if (t < 0) finish(DEADLOCK, "no thread can make progress");
    pass_to(t);
}
void sym_point(void) {
    if (nth == 1 || !nseg) return;
    pthread_mutex_lock(&bm);
    if (k < nseg && cnt >= seg[k].n && k + 1 < nseg) {
        int t = seg[k + 1].t;
        if (t != me && t < nth && st[t] == T_RUN) { pass_to(t); wait_turn(); }
    }
    cnt++;
    pthread_mutex_unlock(&bm);
}
long sym_syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (nr != SYS_futex || !nseg) return syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    uint32_t *ad = (uint32_t *)a[0];
    int op = a[1] & 0x7f;
    sym_point();
    if (op == 0 || op == 9) {
        if (*(volatile uint32_t *)ad != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
        if (a[3]) { pass_time((struct timespec *)a[3], op == 9); errno = ETIMEDOUT; return -1; }
        if (nth == 1) finish(DEADLOCK, "the only thread waits");
        pthread_mutex_lock(&bm);
        st[me] = T_FUTEX; fx[me] = ad; fq[nfq++] = me;
        block_switch();
        wait_turn();
        pthread_mutex_unlock(&bm);
        return 0;
    }
    int woken = 0;
    pthread_mutex_lock(&bm);
    for (int i = 0; i < nfq && woken < (int)a[2];) {
        if (fx[fq[i]] == ad) {
            st[fq[i]] = T_RUN;
            memmove(fq + i, fq + i + 1, (nfq - i - 1) * sizeof *fq);
            nfq--; woken++;
        } else i++;
    }
    pthread_mutex_unlock(&bm);
    return woken;
}
struct start { void (*f)(void *); void *a; int id; };
static void thread_over(void *x) {
    (void)x;
    if (!nseg) return;
    pthread_mutex_lock(&bm);
    st[me] = T_DONE;
    for (int i = 0; i < nth; i++) if (st[i] == T_JOIN && jt[i] == me) st[i] = T_RUN;
    block_switch();
    pthread_mutex_unlock(&bm);
}
static void *boot(void *p) {
    struct start s = *(struct start *)p;
    me = s.id;
    pthread_setspecific(endkey, (void *)1);
    if (nseg) { pthread_mutex_lock(&bm); wait_turn(); pthread_mutex_unlock(&bm); }
    s.f(s.a);
    return 0;
}
uint32_t sym_spawn(void (*f)(void *), void *a) {
    static struct start ss[MAXT];
    int id = nth;
    ss[id].f = f; ss[id].a = a; ss[id].id = id;
    st[id] = T_RUN;
    pthread_create(&pt[id], 0, boot, &ss[id]);
    nth++;
    return id;
}
void sym_join(uint32_t t) {
    if (!nseg) { pthread_join(pt[t], 0); return; }
    pthread_mutex_lock(&bm);
    while (st[t] != T_DONE) { st[me] = T_JOIN; jt[me] = t; block_switch(); wait_turn(); }
    pthread_mutex_unlock(&bm);
}

/* ------------------------------------------------------------------ driver */
struct entry { const char *name; size_t len; void (*f)(void); };
static char ebuf[1 << 16];

int sym_rt_main(const struct entry *tab, size_t n) {
    const char *e = getenv("SYM_ENTRY"), *file = getenv("SYM_FILE");
    if (!e || !file) {
        for (size_t i = 0; i < n; i++) printf("%.*s\n", (int)tab[i].len, tab[i].name);
        return 0;
    }
    void (*f)(void) = 0;
    for (size_t i = 0; i < n; i++) {
        size_t l = strlen(e);
        if (tab[i].len >= l && !memcmp(tab[i].name + tab[i].len - l, e, l) && (tab[i].len == l || tab[i].name[tab[i].len - l - 1] == ':')) f = tab[i].f;
    }
    if (!f) { fprintf(stderr, "no harness %s\n", e); return 3; }
    FILE *in = fopen(file, "r");
    if (!in) { perror(file); return 3; }
    setvbuf(in, ebuf, _IOFBF, sizeof ebuf);
    res = mmap(0, sizeof *res, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char line[512];
    while (fgets(line, sizeof line, in)) {
        char nm[128]; unsigned long long v; int t; long c;
        if (line[0] == 'V') { nin = 0; nseg = 0; continue; }
        if (sscanf(line, "I %127s %llu", nm, &v) == 2) { if (nin < 4096) { strncpy(ins[nin].name, nm, 95); ins[nin++].v = v; } continue; }
        if (sscanf(line, "S %d %ld", &t, &c) == 2) { if (nseg < 65536) { seg[nseg].t = t; seg[nseg++].n = c; } continue; }
        if (line[0] != '.') continue;
        memset(res, 0, offsetof(struct res, obs));
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            const char *s = getenv("SYM_SEED");
            reuse = getenv("SYM_REUSE") != 0;
            rng = (s ? strtoull(s, 0, 10) : 1) * 0x9E3779B97F4A7C15ull | 1;
            fixed_env = 1;
            live = 0;
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            alarm(60);
            if (!getenv("SYM_VERBOSE")) { freopen("/dev/null", "w", stderr); }
            pthread_key_create(&endkey, thread_over);
            f();
            finish(OK, 0);
        }
        int ws = 0;
        waitpid(p, &ws, 0);
        const char *names[] = {"died", "ok", "check", "cut", "deadlock", "memory"};
        char extra[64] = "";
        if (res->status == RUNNING) {
            if (WIFSIGNALED(ws)) snprintf(extra, sizeof extra, "signal %d", WTERMSIG(ws));
            else snprintf(extra, sizeof extra, "exit %d", WEXITSTATUS(ws));
        }
        printf("R %s %d", names[res->status], res->nobs);
        for (int i = 0; i < res->nobs; i++) printf(" %llu", (unsigned long long)res->obs[i]);
        printf(" | %s%s\n", res->msg, extra);
    }
    return 0;
}
