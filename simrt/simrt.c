#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default"), used))
#define CTL_FD 198
#define STS_FD 199
#define FILE_FD 100

extern char **environ;

static struct sim_shm *S;
static uint8_t *B; /* shm base */
static volatile int active;

/* ------------------------------------------------------------------ raw system calls */
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
#define R1(n, a) raw(n, (long)(a), 0, 0, 0, 0, 0)
#define R2(n, a, b) raw(n, (long)(a), (long)(b), 0, 0, 0, 0)
#define R3(n, a, b, c) raw(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)

static void die_now(uint64_t state) __attribute__((noreturn));
static void die_now(uint64_t state) {
    S->state = state;
    R1(SYS_exit_group, 77);
    __builtin_unreachable();
}
static void harness(const char *msg) __attribute__((noreturn));
static void harness(const char *msg) {
    if (S) {
        strncpy(S->harness_msg, msg, sizeof S->harness_msg - 1);
        die_now(ST_HARNESS);
    }
    raw(SYS_write, 2, (long)msg, strlen(msg), 0, 0, 0);
    R1(SYS_exit_group, 78);
    __builtin_unreachable();
}

/* ------------------------------------------------------------------ event log */
static void ev(uint64_t kind, uint64_t a, uint64_t b) {
    uint64_t h = S->evhash;
    uint64_t v[4] = {kind, a, b, S->steps};
    for (int i = 0; i < 4; i++) {
        h ^= v[i];
        h *= 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
    }
    S->evhash = h;
}
static void logs(const char *s) {
    if (!S->trace) return;
    size_t n = strlen(s);
    if (S->log_len + n > LEN_LOG) return;
    memcpy(B + OFF_LOG + S->log_len, s, n);
    S->log_len += n;
}
static void logn(uint64_t x) {
    char b[24];
    int i = 23;
    b[i] = 0;
    do { b[--i] = '0' + x % 10; x /= 10; } while (x);
    logs(b + i);
}
static int me_of(void);
static void logev(const char *k, const char *n1, int64_t a, const char *n2, int64_t b) {
    if (!S->trace) return;
    logs("@"); logn(S->steps); logs(" t"); logn(me_of()); logs(" "); logs(k);
    if (n1) { logs(" "); logs(n1); logs("="); if (a < 0) { logs("-"); a = -a; } logn(a); }
    if (n2) { logs(" "); logs(n2); logs("="); if (b < 0) { logs("-"); b = -b; } logn(b); }
    logs("\n");
}
static void forbid(const char *what, const char *path) {
    ev(900, S->n_forb, 0);
    logev(what, "forbidden", 1, 0, 0);
    if (S->n_forb < MAX_FORB) {
        char *d = S->forb[S->n_forb];
        size_t i = 0;
        for (; *what && i < 90; what++) d[i++] = *what;
        if (path) {
            if (i < 90) d[i++] = ' ';
            for (; *path && i < 94; path++) d[i++] = *path;
        }
        d[i] = 0;
    }
    S->n_forb++;
}

/* ------------------------------------------------------------------ threads */
#define MAXT 512
enum { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
static struct thr {
    int state;
    int sem; /* real futex word */
    uint32_t *addr;
    uint64_t seq; /* order of blocking */
    uint64_t deadline; /* monotonic ns, ~0 none */
    int timed_out, bitset_unused, join_target, detached;
    pthread_t pt;
    void *(*fn)(void *);
    void *arg;
} T[MAXT];
static int nthr, cur;
static __thread int me = -1;
static __thread int leaving;
static uint64_t blockseq, pickpos;
static uint64_t next_preempt_i, next_event;
static pthread_key_t exit_key;

static int me_of(void) { return me < 0 ? 99 : me; }

static void recompute(void) {
    uint64_t n = S->step_limit ? S->step_limit : ~0ull;
    if (S->crash_step && S->crash_step < n) n = S->crash_step;
    if (next_preempt_i < S->n_preempt) {
        uint64_t p = ((uint64_t *)(B + OFF_DATA + S->preempt_off))[2 * next_preempt_i];
        if (p < n) n = p;
    }
    next_event = n;
}
static void kill_self(void) {
    S->ctr[C_KILL]++;
    S->state = ST_KILLED;
    long pid = R1(SYS_getpid, 0);
    R2(SYS_kill, pid, SIGKILL);
    for (;;) R1(SYS_pause, 0);
}
static uint64_t mono(void) { return S->monotonic_ns + S->steps * S->ns_per_step + S->stall_ns + S->ctr[C_JUMP] * S->jump_mono; }

static void fwait(int *w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw(SYS_futex, (long)w, 0, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fpost(int *w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    raw(SYS_futex, (long)w, 1, 1, 0, 0, 0);
}
/* give the token to t; returns when the caller has it again (unless it is leaving) */
static void hand_over(int t, int wait) {
    int self = me;
    if (t == self) return;
    S->switches++;
    S->ctr[C_SWITCH]++;
    uint64_t h = S->schedhash ^ ((uint64_t)t << 56) ^ S->steps;
    h *= 0xD6E8FEB86659FD93ull;
    h ^= h >> 32;
    S->schedhash = h;
    ev(1, t, self);
    logev("switch", "to", t, 0, 0);
    cur = t;
    fpost(&T[t].sem);
    if (wait) fwait(&T[self].sem);
}
static void expire(void) {
    uint64_t now = mono();
    for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline <= now) {
            T[i].timed_out = 1;
            T[i].state = T_RUN;
            S->ctr[C_TIMEOUT]++;
        }
}
/* the running thread cannot go on: choose another one */
static void block_and_switch(int wait) {
    for (;;) {
        expire();
        int r[MAXT], n = 0;
        for (int i = 0; i < nthr; i++)
            if (T[i].state == T_RUN) r[n++] = i;
        if (n) {
            uint64_t p = 0;
            if (pickpos < S->n_picks) p = ((uint64_t *)(B + OFF_DATA + S->picks_off))[pickpos++];
            int t = r[p % n];
            if (t == me) return;
            hand_over(t, wait);
            return;
        }
        /* nobody can run: jump to the next deadline, or it is a deadlock */
        uint64_t d = ~0ull;
        for (int i = 0; i < nthr; i++)
            if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline < d) d = T[i].deadline;
        if (d == ~0ull) {
            if (!wait) {
                int live = 0;
                for (int i = 0; i < nthr; i++)
                    if (T[i].state != T_DONE && T[i].state != T_FREE) live++;
                if (!live) return;
            }
            die_now(ST_DEADLOCK);
        }
        S->stall_ns += d - mono();
    }
}
/* the kernel was entered and is about to return: the other threads may go on instead */
static uint64_t yieldpos;
static void kernel_exit(void) {
    if (nthr < 2 || yieldpos >= S->n_yields) return;
    uint64_t p = ((uint64_t *)(B + OFF_DATA + S->yields_off))[yieldpos++];
    if (!p) return;
    expire();
    int r[MAXT], n = 0;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_RUN && i != me) r[n++] = i;
    if (!n) return;
    S->ctr[C_PREEMPT]++;
    hand_over(r[(p - 1) % n], 1);
}
static void slow_step(void) {
    if (S->step_limit && S->steps >= S->step_limit) die_now(ST_STEPLIMIT);
    if (S->crash_step && S->steps >= S->crash_step) kill_self();
    while (next_preempt_i < S->n_preempt) {
        uint64_t *p = (uint64_t *)(B + OFF_DATA + S->preempt_off) + 2 * next_preempt_i;
        if (p[0] > S->steps) break;
        next_preempt_i++;
        expire();
        int r[MAXT], n = 0;
        for (int i = 0; i < nthr; i++)
            if (T[i].state == T_RUN && i != me) r[n++] = i;
        if (n) {
            S->ctr[C_PREEMPT]++;
            recompute();
            hand_over(r[p[1] % n], 1);
            break;
        }
    }
    recompute();
}
static inline void step(void) {
    if (__builtin_expect(!active, 0) || me < 0 || leaving) return;
    S->steps++;
    if (__builtin_expect(S->steps >= next_event, 0)) slow_step();
}

/* ------------------------------------------------------------------ coverage */
static uint8_t watched[LEN_COV];
#define MAXSITES 64
static uint64_t site_seen[MAXSITES], site_fired[MAXSITES];
static void watch_sites(void) {
    uint64_t *p = (uint64_t *)(B + OFF_DATA + S->sites_off);
    for (uint64_t i = 0; i < S->n_sites && i < MAXSITES; i++) watched[p[4 * i] & (LEN_COV - 1)] = 1;
}
/* the running thread enters a basic block at which it may lose the processor */
static void at_site(uint32_t g) {
    if (nthr < 2) return;
    uint64_t *p = (uint64_t *)(B + OFF_DATA + S->sites_off);
    for (uint64_t i = 0; i < S->n_sites && i < MAXSITES; i++) {
        uint64_t *q = p + 4 * i;
        if ((q[0] & (LEN_COV - 1)) != g) continue;
        uint64_t k = ++site_seen[i];
        if (k < q[1] || (q[2] ? (k - q[1]) % q[2] : k != q[1]) || site_fired[i] >= 3000) continue;
        site_fired[i]++;
        expire();
        int r[MAXT], n = 0;
        for (int j = 0; j < nthr; j++)
            if (T[j].state == T_RUN && j != me) r[n++] = j;
        if (!n) continue;
        S->ctr[C_PREEMPT]++;
        hand_over(r[(q[3] + site_fired[i]) % n], 1);
        return;
    }
}
/* the running thread is about to do, or has just done, an atomic access */
static uint64_t atompos;
static void at_atom(void) {
    if (!active || me < 0 || leaving || nthr < 2) return;
    uint64_t k = ++S->ctr[C_ATOMICS];
    uint64_t *q = (uint64_t *)(B + OFF_DATA + S->atoms_off);
    while (atompos < S->n_atoms && q[2 * atompos] < k) atompos++;
    if (atompos >= S->n_atoms || q[2 * atompos] != k) return;
    uint64_t p = q[2 * atompos++ + 1];
    expire();
    int r[MAXT], n = 0;
    for (int j = 0; j < nthr; j++)
        if (T[j].state == T_RUN && j != me) r[n++] = j;
    if (!n) return;
    S->ctr[C_PREEMPT]++;
    hand_over(r[p % n], 1);
}
#include "atomics.inc"
EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    static uint32_t n;
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++n;
    extern uint32_t sim_guards;
    sim_guards = n;
}
uint32_t sim_guards;
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (__builtin_expect(!active, 0) || me < 0 || leaving) return;
    uint8_t *c = B + OFF_COV + (*g & (LEN_COV - 1));
    uint8_t x = *c;
    if (x != 255) *c = x + 1;
    S->steps++;
    if (__builtin_expect(S->steps >= next_event, 0)) slow_step();
    if (__builtin_expect(watched[*g & (LEN_COV - 1)], 0)) at_site(*g & (LEN_COV - 1));
}

/* ------------------------------------------------------------------ memory */
static char boot[1 << 20] __attribute__((aligned(64)));
static size_t boot_used;
static uint8_t *heap_cur, *heap_end;
static uint64_t live_bytes;
#define NCLS 48
static void *freel[NCLS];
struct hdr { uint64_t size; uint64_t cls; }; /* 16 bytes in front of every block */

static int cls_of(size_t n, size_t *sz) {
    /* classes: 16,32,48,64, then 4 per doubling */
    if (n < 16) n = 16;
    if (n <= 64) { *sz = (n + 15) & ~15ull; return (int)(*sz / 16) - 1; }
    int lg = 63 - __builtin_clzll(n - 1);
    size_t base = 1ull << lg, q = base / 4;
    size_t k = (n - base + q - 1) / q;
    *sz = base + k * q;
    int c = 4 + (lg - 6) * 4 + (int)k - 1;
    return c;
}
static void *raw_alloc(size_t n, size_t align) {
    if (!active || me < 0 || leaving) {
        size_t a = align < 16 ? 16 : align;
        size_t p = ((uintptr_t)boot + boot_used + 16 + a - 1) & ~(a - 1);
        size_t off = p - (uintptr_t)boot;
        if (off + n > sizeof boot) harness("boot heap exhausted");
        /* boot memory may be taken by threads that do not hold the token */
        size_t old = boot_used, nw;
        do {
            p = ((uintptr_t)boot + old + 16 + a - 1) & ~(a - 1);
            nw = p - (uintptr_t)boot + n;
            if (nw > sizeof boot) harness("boot heap exhausted");
        } while (!__atomic_compare_exchange_n(&boot_used, &old, nw, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
        struct hdr *h = (struct hdr *)p - 1;
        h->size = n;
        h->cls = ~0ull;
        return (void *)p;
    }
    if (align <= 16 && n <= (1u << 16)) {
        size_t sz;
        int c = cls_of(n, &sz);
        if (c < NCLS && freel[c]) {
            void *p = freel[c];
            freel[c] = *(void **)p;
            struct hdr *h = (struct hdr *)p - 1;
            h->size = n;
            h->cls = c;
            return p;
        }
        if (heap_cur + sz + 16 > heap_end) return NULL;
        struct hdr *h = (struct hdr *)heap_cur;
        h->size = n;
        h->cls = c < NCLS ? (uint64_t)c : ~0ull;
        heap_cur += sz + 16;
        return h + 1;
    }
    size_t a = align < 16 ? 16 : align;
    uintptr_t p = ((uintptr_t)heap_cur + 16 + a - 1) & ~(a - 1);
    if (n > (size_t)(heap_end - heap_cur) || p + n > (uintptr_t)heap_end) return NULL;
    heap_cur = (uint8_t *)((p + n + 15) & ~15ull);
    struct hdr *h = (struct hdr *)p - 1;
    h->size = n;
    h->cls = ~0ull;
    return (void *)p;
}
static int alloc_gate(size_t n) { /* 0: this allocation fails */
    if (!active || me < 0 || leaving) return 1;
    step();
    uint64_t i = ++S->allocs;
    int fail = S->alloc_fail_from && i >= S->alloc_fail_from;
    for (uint64_t k = 0; !fail && k < S->n_alloc_fail; k++)
        if (S->alloc_fail[k] == i) fail = 1;
    if (S->heap_limit && live_bytes + n > S->heap_limit) fail = 1;
    if (fail) {
        S->ctr[C_ALLOC_FAIL]++;
        ev(2, i, n);
        logev("alloc fails", "index", i, "size", n);
        errno = ENOMEM;
        return 0;
    }
    live_bytes += n;
    if (live_bytes > S->max_heap) S->max_heap = live_bytes;
    return 1;
}
EXPORT void *malloc(size_t n) {
    if (!alloc_gate(n)) return NULL;
    void *p = raw_alloc(n, 16);
    if (!p) errno = ENOMEM;
    return p;
}
EXPORT void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    if (!alloc_gate(n)) return NULL;
    void *p = raw_alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
EXPORT void free(void *p) {
    if (!p || !active || me < 0 || leaving) return;
    if ((char *)p >= boot && (char *)p < boot + sizeof boot) return;
    step();
    struct hdr *h = (struct hdr *)p - 1;
    live_bytes -= h->size < live_bytes ? h->size : live_bytes;
    if (h->cls < NCLS) {
        *(void **)p = freel[h->cls];
        freel[h->cls] = p;
    } else if (h->size >= (4u << 20)) {
        uintptr_t a = ((uintptr_t)p + 4095) & ~4095ull, e = ((uintptr_t)p + h->size) & ~4095ull;
        if (e > a) R3(SYS_madvise, a, e - a, MADV_DONTNEED);
    }
}
EXPORT void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (n == 0) { free(p); return NULL; }
    struct hdr *h = (struct hdr *)p - 1;
    if (!alloc_gate(n)) return NULL;
    void *q = raw_alloc(n, 16);
    if (!q) { errno = ENOMEM; return NULL; }
    memcpy(q, p, h->size < n ? h->size : n);
    free(p);
    return q;
}
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
    if (!alloc_gate(n)) return ENOMEM;
    void *p = raw_alloc(n, al);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
EXPORT void *aligned_alloc(size_t al, size_t n) {
    void *p;
    return posix_memalign(&p, al, n) ? NULL : p;
}
EXPORT void *memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
EXPORT size_t malloc_usable_size(void *p) { return p ? ((struct hdr *)p - 1)->size : 0; }

/* ------------------------------------------------------------------ randomness */
static uint64_t rng_next(void) {
    uint64_t z = (S->entropy += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void fill(void *buf, size_t n) {
    S->ctr[C_RANDOM]++;
    uint8_t *p = buf;
    while (n) {
        uint64_t r = rng_next();
        size_t k = n < 8 ? n : 8;
        memcpy(p, &r, k);
        p += k;
        n -= k;
    }
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    if (!active) return raw(SYS_getrandom, (long)buf, n, flags, 0, 0, 0);
    step();
    fill(buf, n);
    return n;
}
EXPORT int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

/* ------------------------------------------------------------------ time */
static uint64_t clock_ns(clockid_t c) {
    uint64_t n = ++S->ctr[C_CLOCK];
    if (S->jump_at && n >= S->jump_at && (n == S->jump_at || (S->jump_every && (n - S->jump_at) % S->jump_every == 0))) S->ctr[C_JUMP]++;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI)
    {
        int64_t t = S->realtime_ns + S->steps * S->ns_per_step + S->stall_ns + S->ctr[C_JUMP] * S->jump_real;
        return t > 0 ? t : 0;
    }
    return mono();
}
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
    if (!active) return raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    step();
    uint64_t n = clock_ns(c);
    t->tv_sec = n / 1000000000ull;
    t->tv_nsec = n % 1000000000ull;
    return 0;
}
EXPORT int gettimeofday(struct timeval *t, void *z) {
    (void)z;
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
static void sleep_until(uint64_t deadline) {
    step();
    T[me].state = T_SLEEP;
    T[me].deadline = deadline;
    T[me].timed_out = 0;
    block_and_switch(1);
}
EXPORT int nanosleep(const struct timespec *r, struct timespec *rem) {
    (void)rem;
    if (!active) return 0;
    sleep_until(mono() + r->tv_sec * 1000000000ull + r->tv_nsec);
    return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *rem) {
    (void)rem;
    if (!active) return 0;
    uint64_t n = r->tv_sec * 1000000000ull + r->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        uint64_t now = clock_ns(c);
        n = n > now ? n - now : 0;
    }
    sleep_until(mono() + n);
    return 0;
}
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, 0); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }
EXPORT int sched_yield(void) {
    if (!active) return 0;
    step();
    int r[MAXT], n = 0;
    for (int i = 1; i <= nthr; i++) {
        int t = (me + i) % nthr;
        if (T[t].state == T_RUN && t != me) r[n++] = t;
    }
    if (n) hand_over(r[0], 1);
    return 0;
}

/* ------------------------------------------------------------------ streams */
static uint64_t in_pos, in_i, out_i, err_i;
static struct { uint64_t i, eintr; } F[MAX_FILES];
#define MAX_FD 32
static struct { int open; int file; uint64_t pos; } FD[MAX_FD];
static int is_file(int fd) { return fd >= FILE_FD && fd < FILE_FD + MAX_FD && FD[fd - FILE_FD].open; }
static int new_fd(int file) {
    for (int i = 0; i < MAX_FD; i++)
        if (!FD[i].open) {
            FD[i].open = 1;
            FD[i].file = file;
            FD[i].pos = 0;
            return FILE_FD + i;
        }
    errno = EMFILE;
    return -1;
}
/* other names for descriptors, and which standard streams were closed */
#define DUP_FD 200
#define MAX_DUP 16
static struct { int open, to; } DUP[MAX_DUP];
static int std_closed;
/* what a descriptor stands for, -1: nothing */
static int base(int fd) {
    if (fd >= DUP_FD && fd < DUP_FD + MAX_DUP) return DUP[fd - DUP_FD].open ? DUP[fd - DUP_FD].to : -1;
    if (fd >= 0 && fd <= 2 && std_closed >> fd & 1) return -1;
    return fd;
}
static int new_dup(int fd) {
    fd = base(fd);
    if (!(fd >= 0 && fd <= 2) && !is_file(fd)) { errno = EBADF; return -1; }
    for (int i = 0; i < MAX_DUP; i++)
        if (!DUP[i].open) {
            DUP[i].open = 1;
            DUP[i].to = fd;
            if (is_file(fd)) FD[fd - FILE_FD].open++;
            ev(32, fd, i);
            return DUP_FD + i;
        }
    errno = EMFILE;
    return -1;
}
/* descriptors that the process didn't have at its beginning, or has no more */
EXPORT uint64_t sim_descriptors(void) {
    uint64_t n = 0;
    for (int i = 0; i < MAX_DUP; i++) n += DUP[i].open;
    for (int i = 0; i < MAX_FD; i++) n += FD[i].open;
    for (int i = 0; i < 3; i++) n += std_closed >> i & 1;
    return n;
}
/* the file of that name now, -1: none */
static int find_file(const char *path) {
    size_t n = strlen(path);
    int k = -1;
    for (uint64_t i = 0; i < S->n_files; i++) {
        struct sim_file *f = &S->files[i];
        if (f->path_len == n && !memcmp(B + OFF_DATA + f->path_off, path, n) && S->ios >= f->from_io) k = i;
    }
    return k;
}

static void io_point(int after) {
    /* crash_io = 2k: killed before the k-th I/O call, 2k+1: right after it */
    if (!after) {
        S->ios++;
        if (S->crash_io && S->crash_io == 2 * S->ios) kill_self();
    } else {
        if (S->crash_io && S->crash_io == 2 * S->ios + 1) kill_self();
        kernel_exit();
    }
}
static uint64_t outcome(struct sim_stream *s, uint64_t *i) {
    if (*i < s->n_sched) return ((uint64_t *)(B + OFF_DATA + s->sched_off))[(*i)++];
    return OC_FULL;
}
static ssize_t do_read(struct sim_stream *s, uint64_t *pos, uint64_t *i, void *buf, size_t n, int fd) {
    S->ctr[C_READS]++;
    S->allocs_at_read = S->allocs;
    uint64_t oc = outcome(s, i), arg = oc >> 8;
    uint64_t end = s->len < s->limit ? s->len : s->limit;
    uint64_t rem = *pos < end ? end - *pos : 0;
    ssize_t r;
    int e = 0;
    switch (oc & 255) {
    case OC_EINTR:
        S->ctr[C_READ_EINTR]++;
        e = EINTR;
        break;
    case OC_ERR:
        S->ctr[C_READ_ERR]++;
        e = arg;
        break;
    case OC_STALL:
        S->ctr[C_READ_STALL]++;
        S->stall_ns += arg;
        break;
    }
    if (!e && rem == 0 && *pos >= s->limit) {
        S->ctr[C_READ_ERR]++;
        e = s->limit_errno;
    }
    if (e) {
        ev(10 + fd, -e, n);
        logev("read error", "fd", fd, "errno", e);
        errno = e;
        return -1;
    }
    size_t k = n < rem ? n : rem;
    if ((oc & 255) == OC_SHORT) {
        uint64_t m = arg ? arg : 1;
        if (m < k) {
            k = m;
            S->ctr[C_READ_SHORT]++;
        }
    }
    memcpy(buf, B + OFF_DATA + s->off + *pos, k);
    *pos += k;
    if (k && *pos < s->len && (B[OFF_DATA + s->off + *pos] & 0xC0) == 0x80) S->ctr[C_READ_MB_SPLIT]++;
    r = k;
    ev(10 + fd, r, n);
    logev("read", "fd", fd, "bytes", r);
    return r;
}
static ssize_t do_write(int fd, const struct iovec *v, int nv) {
    struct sim_stream *s = fd == 1 ? &S->out : &S->err;
    uint64_t *i = fd == 1 ? &out_i : &err_i;
    uint64_t *pos = fd == 1 ? &S->out_len : &S->err_len;
    uint64_t area = fd == 1 ? OFF_OUT : OFF_ERR, cap = fd == 1 ? LEN_OUT : LEN_ERR;
    int base = fd == 1 ? C_WRITE_SHORT : C_EWRITE_SHORT;
    size_t n = 0;
    for (int k = 0; k < nv; k++) n += v[k].iov_len;
    S->ctr[C_WRITES]++;
    uint64_t oc = outcome(s, i), arg = oc >> 8;
    int e = 0;
    uint64_t stall = 0;
    size_t k = n;
    switch (oc & 255) {
    case OC_EINTR: S->ctr[base + 1]++; e = EINTR; break;
    case OC_ERR: S->ctr[base + 2]++; e = arg; break;
    case OC_STALL: S->ctr[C_WRITE_STALL]++; stall = arg; break;
    case OC_ZERO: if (n) { S->ctr[C_WRITE_ZERO]++; k = 0; } break;
    case OC_SHORT: {
        uint64_t m = arg ? arg : 1;
        if (m < k) { k = m; S->ctr[base]++; }
        break;
    }
    }
    if (!e && n && k && *pos >= s->limit) {
        S->ctr[base + 3]++;
        e = s->limit_errno;
    }
    if (e) {
        ev(20 + fd, -e, n);
        logev("write error", "fd", fd, "errno", e);
        errno = e;
        return -1;
    }
    if (s->limit != ~0ull && *pos + k > s->limit) {
        k = s->limit - *pos;
        S->ctr[base + 3]++;
    }
    if (fd == 1 && *pos + k > cap) harness("output area exhausted");
    size_t left = *pos + k > cap ? cap - *pos : k; /* of diagnostics beyond the area only the beginning is kept */
    for (int q = 0; q < nv && left; q++) {
        size_t c = v[q].iov_len < left ? v[q].iov_len : left;
        memcpy(B + area + *pos, v[q].iov_base, c);
        *pos += c;
        left -= c;
    }
    ev(20 + fd, k, n);
    logev("write", "fd", fd, "bytes", k);
    /* a slow reader at the other end: the writing thread waits, others go on */
    if (nthr > 1) {
        if (stall) sleep_until(mono() + stall);
    } else
        S->stall_ns += stall;
    return k;
}
static ssize_t vread(int fd, void *buf, size_t n) {
    step();
    io_point(0);
    ssize_t r;
    fd = base(fd);
    if (fd == 0) r = do_read(&S->in, &in_pos, &in_i, buf, n, 0);
    else if (is_file(fd)) {
        int k = FD[fd - FILE_FD].file;
        r = do_read(&S->files[k].s, &FD[fd - FILE_FD].pos, &F[k].i, buf, n, fd);
    }
    else { errno = EBADF; r = -1; }
    int e = errno;
    io_point(1);
    errno = e;
    return r;
}
static ssize_t vwrite(int fd, const struct iovec *v, int nv) {
    step();
    io_point(0);
    ssize_t r;
    fd = base(fd);
    if (fd == 1 || fd == 2) r = do_write(fd, v, nv);
    else if (fd < 0) {
        errno = EBADF;
        r = -1;
    } else {
        forbid("write to other descriptor", NULL);
        errno = EBADF;
        r = -1;
    }
    int e = errno;
    io_point(1);
    errno = e;
    return r;
}
EXPORT ssize_t read(int fd, void *buf, size_t n) {
    if (!active) return raw(SYS_read, fd, (long)buf, n, 0, 0, 0);
    return vread(fd, buf, n);
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
    if (!active) return raw(SYS_write, fd, (long)buf, n, 0, 0, 0);
    struct iovec v = {(void *)buf, n};
    return vwrite(fd, &v, 1);
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int nv) {
    for (int i = 0; i < nv; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return read(fd, NULL, 0);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int nv) {
    if (!active) return raw(SYS_writev, fd, (long)v, nv, 0, 0, 0);
    return vwrite(fd, v, nv);
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off_t o) {
    if (!active) return raw(SYS_pread64, fd, (long)buf, n, o, 0, 0);
    fd = base(fd);
    if (is_file(fd)) {
        int k = FD[fd - FILE_FD].file;
        step();
        io_point(0);
        uint64_t pos = o;
        ssize_t r = do_read(&S->files[k].s, &pos, &F[k].i, buf, n, fd);
        int e = errno;
        io_point(1);
        errno = e;
        return r;
    }
    errno = ESPIPE;
    return -1;
}
EXPORT ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }

static int vopen(const char *path, int flags) {
    step();
    io_point(0);
    int acc = flags & O_ACCMODE;
    if (acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC | O_APPEND | (O_TMPFILE & ~O_DIRECTORY)))) {
        forbid("open for writing", path);
        errno = EACCES;
        return -1;
    }
    int i = find_file(path);
    if (i >= 0) {
        struct sim_file *f = &S->files[i];
        if (F[i].eintr < f->open_eintr) {
            F[i].eintr++;
            S->ctr[C_OPEN_EINTR]++;
            ev(30, EINTR, i);
            errno = EINTR;
            return -1;
        }
        if (f->open_errno) {
            S->ctr[C_OPEN_ERR]++;
            ev(30, f->open_errno, i);
            logev("open error", "file", i, "errno", f->open_errno);
            errno = f->open_errno;
            return -1;
        }
        ev(30, 0, i);
        logev("open", "file", i, 0, 0);
        io_point(1);
        return new_fd(i);
    }
    if (!strcmp(path, "/dev/stdin") || !strcmp(path, "/dev/fd/0") || !strcmp(path, "/proc/self/fd/0")) return new_dup(0);
    if (!strncmp(path, "/proc/self/cgroup", 17) || !strncmp(path, "/sys/fs/cgroup", 14)) {
        /* std asks how many processors there are */
        errno = ENOENT;
        return -1;
    }
    forbid("open of another file", path);
    if (S->decoy) return new_fd(S->n_files);
    errno = ENOENT;
    return -1;
}
EXPORT int open64(const char *p, int flags, ...) {
    if (!active) {
        va_list a;
        va_start(a, flags);
        int m = va_arg(a, int);
        va_end(a);
        long r = raw(SYS_openat, AT_FDCWD, (long)p, flags, m, 0, 0);
        if (r < 0) { errno = -r; return -1; }
        return r;
    }
    return vopen(p, flags);
}
EXPORT int open(const char *p, int flags, ...) { return active ? vopen(p, flags) : open64(p, flags, 0); }
EXPORT int openat64(int d, const char *p, int flags, ...) { (void)d; return active ? vopen(p, flags) : open64(p, flags, 0); }
EXPORT int openat(int d, const char *p, int flags, ...) { (void)d; return active ? vopen(p, flags) : open64(p, flags, 0); }
EXPORT int close(int fd) {
    if (!active) return raw(SYS_close, fd, 0, 0, 0, 0, 0);
    step();
    ev(31, fd, 0);
    if (base(fd) < 0) { errno = EBADF; return -1; }
    if (fd >= 0 && fd <= 2) std_closed |= 1 << fd;
    else {
        int to = base(fd);
        if (to != fd) DUP[fd - DUP_FD].open = 0;
        if (is_file(to)) FD[to - FILE_FD].open--;
    }
    return 0;
}
static int kind_of(int i) { return S->kinds >> (8 * i) & 255; }
static void describe(struct stat *st, int kind, uint64_t size, uint64_t which) {
    static const mode_t TYPE[N_KINDS] = {S_IFIFO, S_IFCHR, S_IFREG, S_IFCHR, S_IFSOCK};
    static const mode_t PERM[4] = {0644, 0600, 0444, 0777};
    uint64_t m = S->meta;
    st->st_mode = TYPE[kind] | (kind == KIND_FILE ? PERM[m & 3] : 0600);
    st->st_size = kind == KIND_FILE ? size : 0;
    st->st_blksize = 4096;
    st->st_blocks = (st->st_size + 511) / 512;
    st->st_nlink = 1 + (m >> 2 & 1);
    st->st_ino = (m >> 8 & 0xffffff) + which + 1;
    st->st_dev = 1 + (m >> 3 & 15);
    st->st_uid = m >> 4 & 1 ? 1000 : 0;
    st->st_gid = st->st_uid;
    st->st_mtime = S->realtime_ns / 1000000000 - (m >> 32 & 0xfffffff);
    st->st_atime = st->st_ctime = st->st_mtime + (m >> 5 & 3);
}
static int fstat_common(int fd, struct stat *st) {
    memset(st, 0, sizeof *st);
    fd = base(fd);
    if (is_file(fd)) {
        struct sim_file *f = &S->files[FD[fd - FILE_FD].file];
        describe(st, kind_of(3), f->stat_size, 10 + FD[fd - FILE_FD].file);
        if (st->st_size != (off_t)f->s.len) S->ctr[C_STAT_LIE]++;
        return 0;
    }
    if (fd >= 0 && fd <= 2) { describe(st, kind_of(fd), fd ? 0 : S->in.len, fd); return 0; }
    errno = EBADF;
    return -1;
}
EXPORT int fstat64(int fd, struct stat64 *st) {
    if (!active) { long r = raw(SYS_fstat, fd, (long)st, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
    step();
    return fstat_common(fd, (struct stat *)st);
}
EXPORT int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
static int path_stat(const char *p, struct stat *st) {
    memset(st, 0, sizeof *st);
    int i = find_file(p);
    if (i >= 0) {
        struct sim_file *f = &S->files[i];
        if (f->open_errno && f->open_errno != EACCES) { errno = f->open_errno; return -1; }
        describe(st, kind_of(3), f->stat_size, 10 + i);
        return 0;
    }
    if (S->decoy) {
        describe(st, KIND_FILE, S->files[S->n_files].stat_size, 99);
        return 0;
    }
    errno = ENOENT;
    return -1;
}
EXPORT int stat64(const char *p, struct stat64 *st) {
    if (!active) { long r = raw(SYS_stat, (long)p, (long)st, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
    step();
    return path_stat(p, (struct stat *)st);
}
EXPORT int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return stat64(p, st); }
EXPORT int lstat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
EXPORT int access(const char *p, int m) { (void)m; struct stat64 st; return stat64(p, &st); }
__attribute__((optimize("no-delete-null-pointer-checks"))) EXPORT int statx(int d, const char *p, int flags, unsigned mask, struct statx *x) {
    if (!active) { long r = raw(SYS_statx, d, (long)p, flags, mask, (long)x, 0); if (r < 0) { errno = -r; return -1; } return 0; }
    step();
    /* the declaration promises that neither is null; callers probing for the call break that promise */
    const char *volatile vp = p;
    struct statx *volatile vx = x;
    if (!vp || !vx) { errno = EFAULT; return -1; }
    struct stat st;
    int r = *p ? path_stat(p, &st) : fstat_common(d, &st);
    if (r) return r;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS | STATX_BTIME;
    x->stx_ino = st.st_ino;
    x->stx_uid = st.st_uid;
    x->stx_gid = st.st_gid;
    x->stx_dev_minor = st.st_dev;
    x->stx_blocks = st.st_blocks;
    x->stx_mtime.tv_sec = st.st_mtime;
    x->stx_atime.tv_sec = st.st_atime;
    x->stx_ctime.tv_sec = st.st_ctime;
    x->stx_btime.tv_sec = st.st_mtime;
    x->stx_mode = st.st_mode;
    x->stx_size = st.st_size;
    x->stx_blksize = 4096;
    x->stx_nlink = st.st_nlink;
    return 0;
}
EXPORT off_t lseek64(int fd, off_t o, int w) {
    if (!active) return raw(SYS_lseek, fd, o, w, 0, 0, 0);
    step();
    fd = base(fd);
    if (!is_file(fd) && (fd != 0 || kind_of(0) != KIND_FILE)) { errno = fd >= 0 && fd <= 2 ? ESPIPE : EBADF; return -1; }
    if (is_file(fd) && kind_of(3) != KIND_FILE) { errno = ESPIPE; return -1; }
    uint64_t *pos = fd ? &FD[fd - FILE_FD].pos : &in_pos;
    int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)*pos : fd ? (int64_t)S->files[FD[fd - FILE_FD].file].stat_size : (int64_t)S->in.len;
    if (b + o < 0) { errno = EINVAL; return -1; }
    return *pos = b + o;
}
EXPORT off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
EXPORT int fcntl64(int fd, int cmd, ...) {
    if (!active) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return raw(SYS_fcntl, fd, cmd, x, 0, 0, 0); }
    step();
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return new_dup(fd);
    fd = base(fd);
    if ((fd >= 0 && fd <= 2) || is_file(fd)) return cmd == F_GETFL ? (fd == 0 || fd > 2 ? O_RDONLY : O_WRONLY) : 0;
    errno = EBADF;
    return -1;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return fcntl64(fd, cmd, x); }
static int terminal(int fd) {
    if (!active) { errno = ENOTTY; return 0; }
    step();
    fd = base(fd);
    if (fd >= 0 && fd <= 2 && kind_of(fd) == KIND_TERMINAL) return 1;
    errno = (fd >= 0 && fd <= 2) || is_file(fd) ? ENOTTY : EBADF;
    return 0;
}
EXPORT int ioctl(int fd, unsigned long r, ...) {
    va_list a;
    va_start(a, r);
    void *p = va_arg(a, void *);
    va_end(a);
    if (!terminal(fd)) return -1;
    if (r == TCGETS) { memset(p, 0, 36); return 0; }
    if (r == TIOCGWINSZ) {
        struct winsize *w = p;
        memset(w, 0, sizeof *w);
        w->ws_row = 10 + (S->meta >> 12 & 63);
        w->ws_col = 20 + (S->meta >> 16 & 255);
        return 0;
    }
    errno = EINVAL;
    return -1;
}
EXPORT int isatty(int fd) { return terminal(fd); }
EXPORT int fsync(int fd) { (void)fd; errno = EINVAL; return -1; }
EXPORT int fdatasync(int fd) { (void)fd; errno = EINVAL; return -1; }
EXPORT int poll(struct pollfd *p, nfds_t n, int t) {
    if (!active) return raw(SYS_poll, (long)p, n, t, 0, 0, 0);
    step();
    for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events & (POLLIN | POLLOUT);
    return n;
}
EXPORT int dup(int fd) { if (!active) return raw(SYS_dup, fd, 0, 0, 0, 0, 0); step(); return new_dup(fd); }
EXPORT int dup2(int a, int b) { (void)a; (void)b; forbid("dup2", NULL); errno = EMFILE; return -1; }
EXPORT int dup3(int a, int b, int c) { (void)a; (void)b; (void)c; forbid("dup3", NULL); errno = EMFILE; return -1; }

/* ------------------------------------------------------------------ identity */
EXPORT pid_t getpid(void) { return active ? (pid_t)S->pid : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
EXPORT pid_t getppid(void) { return active ? (pid_t)(S->pid / 2 + 1) : 1; }
EXPORT pid_t gettid(void) { return active ? (pid_t)(S->pid + me_of()) : (pid_t)raw(SYS_gettid, 0, 0, 0, 0, 0, 0); }
EXPORT char *getcwd(char *b, size_t n) {
    const char *c = active ? (char *)(B + OFF_DATA + S->cwd_off) : "/";
    size_t l = strlen(c) + 1;
    if (!b) b = malloc(n > l ? n : l);
    else if (n < l) { errno = ERANGE; return NULL; }
    if (b) memcpy(b, c, l);
    return b;
}
EXPORT int gethostname(char *b, size_t n) {
    if (!active) return -1;
    strncpy(b, (char *)(B + OFF_DATA + S->host_off), n);
    return 0;
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
    if (!active || strcmp(p, "/proc/self/exe")) { errno = EINVAL; return -1; }
    const char *e = (char *)(B + OFF_DATA + S->exe_off);
    size_t l = strlen(e);
    if (l > n) l = n;
    memcpy(b, e, l);
    return l;
}
EXPORT char *realpath(const char *p, char *r) {
    struct stat64 st;
    if (stat64(p, &st)) return NULL;
    size_t l = strlen(p) + 1;
    if (!r) r = malloc(l);
    if (r) memcpy(r, p, l);
    return r;
}

/* effects that no run may have are in deny.c, which includes no header of libc */
int sim_deny(const char *what) {
    if (active) forbid(what, NULL);
    errno = EPERM;
    return -1;
}

/* ------------------------------------------------------------------ futex, syscall() */
static long vfutex(uint32_t *addr, int op, uint32_t val, const struct timespec *to) {
    step();
    int o = op & 127;
    if (o == 0 || o == 9) {
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        struct thr *t = &T[me];
        S->ctr[C_FUTEX_WAIT]++;
        t->state = T_FUTEX;
        t->addr = addr;
        t->seq = ++blockseq;
        t->timed_out = 0;
        t->deadline = ~0ull;
        if (to) {
            uint64_t n = to->tv_sec * 1000000000ull + to->tv_nsec;
            if (o == 9) {
                uint64_t now = (op & 256) ? clock_ns(CLOCK_REALTIME) : mono();
                n = n > now ? n - now : 0;
            }
            t->deadline = mono() + n;
        }
        S->ctr[C_BLOCK]++;
        ev(40, me, 0);
        logev("blocks", 0, 0, 0, 0);
        block_and_switch(1);
        if (t->timed_out) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (o == 1 || o == 10) {
        long n = 0;
        while (n < (long)val) {
            int best = -1;
            for (int i = 0; i < nthr; i++)
                if (T[i].state == T_FUTEX && T[i].addr == addr && (best < 0 || T[i].seq < T[best].seq)) best = i;
            if (best < 0) break;
            T[best].state = T_RUN;
            ev(41, best, 0);
            n++;
        }
        kernel_exit();
        return n;
    }
    errno = ENOSYS;
    return -1;
}
static long (*real_sysconf)(int);
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *set) {
    memset(set, 0, n);
    for (uint64_t i = 0; i < (S && S->ncpu ? S->ncpu : 4) && i < 8 * n; i++) ((uint8_t *)set)[i / 8] |= 1 << (i % 8);
    (void)p;
    return 0;
}
EXPORT long sysconf(int k) {
    if (active && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return S->ncpu ? S->ncpu : 4;
    if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
    return real_sysconf(k);
}
EXPORT long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (!active) {
        long r = raw(n, a, b, c, d, e, f);
        if (r < 0 && r > -4096) { errno = -r; return -1; }
        return r;
    }
    switch (n) {
    case SYS_futex:
        if (me < 0 || leaving) { return raw(n, a, b, c, d, e, f); }
        return vfutex((uint32_t *)a, b, c, (const struct timespec *)d);
    case SYS_getrandom: return getrandom((void *)a, b, c);
    case SYS_gettid: return gettid();
    case SYS_sched_getaffinity: return sched_getaffinity(a, b, (cpu_set_t *)c);
    case SYS_getpid: return getpid();
    case SYS_read: return read(a, (void *)b, c);
    case SYS_write: return write(a, (void *)b, c);
    case SYS_openat: return vopen((char *)b, c);
    case SYS_open: return vopen((char *)a, b);
    case SYS_close: return close(a);
    case SYS_statx: return statx(a, (char *)b, c, d, (struct statx *)e);
    case SYS_clock_gettime: return clock_gettime(a, (struct timespec *)b);
    case SYS_membarrier: case SYS_rseq: errno = ENOSYS; return -1;
    default:
        forbid("other system call", NULL);
        errno = ENOSYS;
        return -1;
    }
}

/* ------------------------------------------------------------------ pthreads */
#define TSTACK_SPACE (16ull << 20)
#define TSTACK_SIZE (8ull << 20)
static void *map_at(uint64_t a, uint64_t n) {
    void *p = (void *)raw(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    return p == (void *)a ? p : NULL;
}

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
static __thread int exit_round;

static void on_exit_key(void *v) {
    /* runs after C++/Rust thread_local destructors; the third round is the end of the thread */
    if (++exit_round < 3) { pthread_setspecific(exit_key, v); return; }
    T[me].state = T_DONE;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_JOIN && T[i].join_target == me) T[i].state = T_RUN;
    ev(50, me, 0);
    logev("thread ends", 0, 0, 0, 0);
    leaving = 1;
    block_and_switch(0);
}
static void *thread_main(void *p) {
    struct thr *t = p;
    me = t - T;
    fwait(&t->sem);
    pthread_setspecific(exit_key, (void *)1);
    return t->fn(t->arg);
}
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    if (!active) return real_create(out, at, fn, arg);
    step();
    int k = nthr < MAXT ? nthr : -1, was = leaving;
    leaving = 1; /* allocations inside glibc come from the boot heap */
    /* with all places taken, a thread that is over makes room */
    for (int i = 1; k < 0 && i < nthr; i++) {
        if (T[i].state == T_DONE && T[i].detached) {
            real_join(T[i].pt, 0);
            T[i].state = T_FREE;
        }
        if (T[i].state == T_FREE) k = i;
    }
    if (k < 0) {
        leaving = was;
        return EAGAIN;
    }
    struct thr *t = &T[k];
    memset(t, 0, sizeof *t);
    t->fn = fn;
    t->arg = arg;
    t->deadline = ~0ull;
    (void)at;
    uint64_t ts = S->stack_base + S->stack_size + (uint64_t)k * TSTACK_SPACE;
    if (k < nthr) raw(SYS_munmap, ts, TSTACK_SIZE, 0, 0, 0, 0);
    uint8_t *st = map_at(ts, TSTACK_SIZE);
    if (!st) harness("thread stack address taken");
    raw(SYS_mprotect, (long)st, 65536, PROT_NONE, 0, 0, 0);
    pthread_attr_t pa;
    pthread_attr_init(&pa);
    pthread_attr_setstack(&pa, st + 65536, TSTACK_SIZE - 65536);
    int r = real_create(&t->pt, &pa, thread_main, t);
    pthread_attr_destroy(&pa);
    leaving = was;
    if (r) harness("pthread_create failed");
    t->state = T_RUN;
    *out = t->pt;
    S->ctr[C_THREADS]++;
    ev(51, k, 0);
    if (k == nthr) nthr++;
    return 0;
}
EXPORT int pthread_join(pthread_t pt, void **ret) {
    if (!active) return real_join(pt, ret);
    step();
    int k = -1;
    for (int i = 0; i < nthr; i++)
        if (T[i].pt == pt && i != me) k = i;
    if (k < 0) return ESRCH;
    if (T[k].state != T_DONE) {
        T[me].state = T_JOIN;
        T[me].join_target = k;
        block_and_switch(1);
    }
    int r = real_join(pt, ret);
    T[k].pt = 0;
    T[k].state = T_FREE;
    return r;
}
/* a stack that we placed reports no guard area, but has one */
EXPORT int pthread_attr_getguardsize(const pthread_attr_t *a, size_t *n) {
    (void)a;
    *n = active ? 65536 : 4096;
    return 0;
}
EXPORT int pthread_detach(pthread_t pt) {
    if (!active) return real_detach(pt);
    for (int i = 0; i < nthr; i++)
        if (T[i].pt == pt) T[i].detached = 1; /* its place is taken back by pthread_create */
    return 0;
}

/* ------------------------------------------------------------------ interface for the library guest */
static int library; /* the library guest has taken its program: from now on it is the library that acts */
EXPORT const uint8_t *sim_user(uint64_t *len) {
    library = 1;
    *len = S->user_len;
    return B + OFF_DATA + S->user_off;
}
EXPORT void sim_report(const uint8_t *p, uint64_t n) {
    if (S->rep_len + n > LEN_REP) harness("report area exhausted");
    memcpy(B + OFF_REP + S->rep_len, p, n);
    S->rep_len += n;
}
EXPORT void sim_yield(void) { step(); }
/* a piece of work has been done: the next one may take as many steps again */
EXPORT void sim_progress(void) {
    static uint64_t at_first;
    if (!S->step_limit) return;
    if (!at_first) at_first = S->step_limit;
    S->step_limit = S->steps + at_first;
    recompute();
}
EXPORT uint32_t sim_threads(void) { /* others that have not come to their end */
    uint32_t n = 0;
    for (int i = 0; i < nthr; i++) n += i != me && T[i].state != T_FREE && T[i].state != T_DONE;
    return n;
}
/* what belongs to the whole process */
static void process_wide(const char *what, const char *arg) {
    if (active && library) forbid(what, arg);
}
static void asked(const char *k) {
    for (uint64_t i = 0; i < S->n_asked; i++)
        if (!strncmp(S->asked[i], k, sizeof S->asked[i] - 1)) return;
    if (S->n_asked < MAX_ASKED) strncpy(S->asked[S->n_asked++], k, sizeof S->asked[0] - 1);
}
EXPORT char *getenv(const char *k) {
    if (active && me >= 0 && !leaving) asked(k);
    size_t n = strlen(k);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}
EXPORT char *secure_getenv(const char *k) { return getenv(k); }
static int (*real_setenv)(const char *, const char *, int), (*real_unsetenv)(const char *), (*real_putenv)(char *), (*real_clearenv)(void);
EXPORT int setenv(const char *k, const char *v, int o) { process_wide("setenv", k); return real_setenv(k, v, o); }
EXPORT int unsetenv(const char *k) { process_wide("unsetenv", k); return real_unsetenv(k); }
EXPORT int putenv(char *s) { process_wide("putenv", s); return real_putenv(s); }
EXPORT int clearenv(void) { process_wide("clearenv", NULL); return real_clearenv(); }
static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);
static sighandler_t (*real_signal)(int, sighandler_t);
EXPORT int sigaction(int n, const struct sigaction *a, struct sigaction *o) {
    if (a) process_wide("sigaction", NULL);
    return real_sigaction ? real_sigaction(n, a, o) : 0;
}
EXPORT sighandler_t signal(int n, sighandler_t h) {
    process_wide("signal", NULL);
    return real_signal ? real_signal(n, h) : SIG_DFL;
}
EXPORT uint64_t sim_out_len(void) { return S->out_len; }
EXPORT uint64_t sim_steps(void) { return S->steps; }
EXPORT uint64_t sim_live(void) { return live_bytes; }
EXPORT void sim_stall(uint64_t ns) { S->stall_ns += ns; }

/* ------------------------------------------------------------------ fork server */
static int (*real_main)(int, char **, char **);
static int g_argc;
static char *g_argv[32], *g_env[64];
static ucontext_t uc_main, uc_back;

static int g_ret;
static void on_exit_fn(void) {
    if (active && S->state == ST_RUNNING) { S->state = ST_EXIT; }
}
static void guest_entry(void) {
    g_ret = real_main(g_argc, g_argv, g_env);
    exit(g_ret);
}
static void split(uint64_t off, uint64_t n, char **v, int max) {
    char *p = (char *)(B + OFF_DATA + off);
    uint64_t i = 0;
    for (; i < n && (int)i < max - 1; i++) {
        v[i] = p;
        p += strlen(p) + 1;
    }
    v[i] = NULL;
}
static void run_guest(void) {
    if (S->magic != SIM_MAGIC) harness("no plan");
    /* plan strings are modified by nobody, but argv must be writable memory of the guest */
    g_argc = S->argc;
    split(S->args_off, S->argc, g_argv, 32);
    split(S->env_off, S->envc, g_env, 64);
    environ = g_env;
    heap_cur = map_at(S->heap_base, S->heap_size);
    if (!heap_cur) harness("heap address taken");
    heap_end = heap_cur + S->heap_size;
    uint8_t *st = map_at(S->stack_base, S->stack_size);
    if (!st) harness("stack address taken");
    raw(SYS_mprotect, (long)st, 65536, PROT_NONE, 0, 0, 0);
    me = 0;
    nthr = 1;
    cur = 0;
    T[0].state = T_RUN;
    T[0].deadline = ~0ull;
    T[0].pt = pthread_self();
    S->n_guards = sim_guards;
    recompute();
    watch_sites();
    atexit(on_exit_fn);
    S->state = ST_RUNNING;
    getcontext(&uc_main);
    uc_main.uc_stack.ss_sp = st + 65536;
    uc_main.uc_stack.ss_size = S->stack_size - 65536;
    uc_main.uc_link = &uc_back;
    makecontext(&uc_main, guest_entry, 0);
    active = 1;
    swapcontext(&uc_back, &uc_main);
}
static int server_main(int argc, char **argv, char **envp) {
    (void)argc; (void)argv; (void)envp;
    const char *path = getenv("SIMRT_SHM");
    if (!path) harness("simrt: this binary only runs under the simulator (SIMRT_SHM)\n");
    int fd = open64(path, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) harness("simrt: cannot open shared memory\n");
    B = (uint8_t *)raw(SYS_mmap, 0, SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    S = (struct sim_shm *)B;
    pid_t (*real_fork)(void) = dlsym(RTLD_NEXT, "fork");
    real_sysconf = dlsym(RTLD_NEXT, "sysconf");
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    real_detach = dlsym(RTLD_NEXT, "pthread_detach");
    real_setenv = dlsym(RTLD_NEXT, "setenv");
    real_unsetenv = dlsym(RTLD_NEXT, "unsetenv");
    real_putenv = dlsym(RTLD_NEXT, "putenv");
    real_clearenv = dlsym(RTLD_NEXT, "clearenv");
    real_sigaction = dlsym(RTLD_NEXT, "sigaction");
    real_signal = dlsym(RTLD_NEXT, "signal");
    pthread_key_create(&exit_key, on_exit_key);
    char c;
    c = 'R';
    raw(SYS_write, STS_FD, (long)&c, 1, 0, 0, 0);
    for (;;) {
        long r = raw(SYS_read, CTL_FD, (long)&c, 1, 0, 0, 0);
        if (r == -EINTR) continue;
        if (r != 1) R1(SYS_exit_group, 0);
        int pid = real_fork();
        if (pid == 0) {
            raw(SYS_close, CTL_FD, 0, 0, 0, 0, 0);
            raw(SYS_close, STS_FD, 0, 0, 0, 0, 0);
            run_guest();
            R1(SYS_exit_group, 79);
        }
        if (pid < 0) harness("fork failed");
        int32_t msg[2] = {pid, 0};
        raw(SYS_write, STS_FD, (long)&msg[0], 4, 0, 0, 0);
        int status = 0;
        while (raw(SYS_wait4, pid, (long)&status, 0, 0, 0, 0) == -EINTR) {}
        msg[1] = status;
        raw(SYS_write, STS_FD, (long)&msg[1], 4, 0, 0, 0);
    }
}
EXPORT int __libc_start_main(int (*m)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *stack_end) {
    int (*real)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *) = dlsym(RTLD_NEXT, "__libc_start_main");
    real_main = m;
    return real(server_main, argc, argv, init, fini, rtld_fini, stack_end);
}
