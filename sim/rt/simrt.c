// Deterministic simulation runtime for the jubako harness.
//
// Everything here is reached through libc symbols this executable defines
// itself (futex/getrandom through syscall(), thread creation and joining,
// file I/O, clocks, CPU count) and through the __tsan_* atomic entry points
// that `rustc -C passes=tsan` puts at every atomic operation of jubako and of
// its dependencies, and through the global allocator.  Real threads run, but
// exactly one at a time: whoever holds the token.  At each of those points the
// seeded scheduler may hand the token to any other runnable thread.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

// ---------------------------------------------------------------- raw syscalls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
static inline long ret_errno(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---------------------------------------------------------------- configuration
enum { F_NONE = 0, F_ERRNO = 1, F_CRASH = 2 };
enum { C_READ = 1, C_WRITE = 2, C_META = 4, C_OPEN = 8, C_MMAP = 16, C_SRC = 256, C_OUT = 512, C_STORE = 1024 };

typedef struct {
    uint64_t sched_seed, env_seed, io_seed;
    uint64_t max_steps;
    uint64_t pct_len;
    uint32_t ncpu, policy, quantum, pct_depth;
    uint32_t p_spurious, p_short_read, p_short_write, p_eintr;
    uint32_t fault_kind, fault_errno, fault_mask, fault_sticky;
    uint64_t fault_at;
    uint64_t fault_byte; // if not 0: when this many bytes less one have been written
    uint32_t fault_partial;
    uint32_t fault_then; // after an error: death that many operations later
    uint32_t cfr_mode; // 0 real, 1 fails ENOSYS, 2 fails EXDEV
    uint32_t n_sched;
    uint32_t stall_thread; // thread id kept off the CPU as long as others can run (0 = none)
    const uint64_t *sched; // pairs (step, tid)
    char root[192];
    uint32_t trace;
    uint32_t first_gap;
} SimCfg;

typedef struct {
    uint64_t steps, switches, preempts, blocks, spurious, threads, wakes, atomics, allocs;
    uint64_t n_read, n_write, n_meta, n_open, n_mmap, n_cfr;
    uint64_t f_short_read, f_short_write, f_eintr, f_errno, f_crash, f_cfr, f_spurious, f_mmap;
    uint64_t eligible;   // operations the one-shot fault could have hit
    uint64_t sched_hash; // scheduling decisions only
    uint64_t io_hash;    // every I/O operation and its result
    uint64_t sim_ns;
    uint32_t outcome; // set by runtime on deadlock / step cap / crash
    uint32_t panics;
    uint64_t max_runnable;
    uint64_t n_preempt_log;
    uint64_t bytes_read, bytes_written;
} SimStats;

enum { O_RUNNING = 0, O_DEADLOCK = 1, O_STEPCAP = 2, O_CRASH = 3, O_FINISHED = 4 };
#define PREEMPT_LOG 65536
#define MSG_MAX 65536
typedef struct {
    SimStats st;
    char msg[MSG_MAX];
    char panic_msg[4096];
    uint64_t preempt_log[2 * PREEMPT_LOG];
} SimShared;

static SimCfg cfg;
static SimShared *sh;
static SimStats dummy_stats;
static SimStats *st = &dummy_stats;
static volatile int sim_on;
static volatile int multi; // more than one simulated thread exists
static int trace_fd = -1;

static uint64_t rng_s, rng_e, rng_i, rng_w;
static inline uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline uint64_t below(uint64_t *s, uint64_t n) { return n ? splitmix(s) % n : 0; }
static inline void mix(uint64_t *h, uint64_t v) {
    *h ^= v + 0x9E3779B97F4A7C15ull + (*h << 6) + (*h >> 2);
    *h *= 0xff51afd7ed558ccdull;
    *h ^= *h >> 32;
}

// ---------------------------------------------------------------- threads
enum { T_RUNNABLE = 1, T_FUTEX = 2, T_JOIN = 3, T_SLEEP = 4, T_DONE = 5 };
#define MAXT 2048
typedef struct Thr {
    int id, state;
    uint32_t go;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    uint32_t *faddr;
    uint32_t fbits;
    uint64_t deadline; // 0: none
    int timedout;
    struct Thr *joining;
    uint32_t prio;
    uint64_t wait_seq;
    int rounds; // of destructors at its end
} Thr;
static Thr thr[MAXT];
static int nthr;
static __thread Thr *self;
static Thr *current;
static uint64_t wait_seq;
static int64_t countdown;
static uint64_t next_change; // PCT
static uint32_t pct_left, low_prio;
static uint64_t same_run;
static uint32_t sched_pos;
static pthread_key_t exit_key;

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static void trace_line(const char *fmt, ...) {
    if (trace_fd < 0) return;
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b) n = sizeof b;
    raw6(SYS_write, trace_fd, (long)b, n, 0, 0, 0);
}

static void finish(uint32_t outcome, int code) {
    st->outcome = outcome;
    raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

static void sample_countdown(void) {
    if (cfg.n_sched != 0 || cfg.policy == 9) { countdown = INT64_MAX; return; }
    uint32_t q = cfg.quantum ? cfg.quantum : 1;
    // geometric-ish with mean about q
    countdown = 1 + (int64_t)below(&rng_s, 2 * (uint64_t)q);
}

static void wait_token(Thr *t) {
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
        raw6(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void give_token(Thr *t) {
    current = t;
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static int wake_expired(void) {
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if ((thr[i].state == T_FUTEX || thr[i].state == T_SLEEP) && thr[i].deadline && thr[i].deadline <= st->sim_ns) {
            thr[i].timedout = thr[i].state == T_FUTEX;
            thr[i].state = T_RUNNABLE;
            thr[i].deadline = 0;
            n++;
        }
    return n;
}

// A replayed schedule is the sequence of choices (4*step + kind, thread).
enum { K_PREEMPT = 0, K_BLOCK = 1, K_WAKE = 2, K_YIELD = 3 };
static Thr *replay_choice(int kind) {
    while (sched_pos < cfg.n_sched && cfg.sched[2 * sched_pos] / 4 < st->steps) sched_pos++;
    if (sched_pos < cfg.n_sched && cfg.sched[2 * sched_pos] == st->steps * 4 + kind) {
        uint64_t tid = cfg.sched[2 * sched_pos + 1];
        sched_pos++;
        if (tid < (uint64_t)nthr) return &thr[tid];
    }
    return NULL;
}
static void log_choice(int kind, int tid) {
    if (sh && st->n_preempt_log < PREEMPT_LOG) {
        sh->preempt_log[2 * st->n_preempt_log] = st->steps * 4 + kind;
        sh->preempt_log[2 * st->n_preempt_log + 1] = tid;
    }
    st->n_preempt_log++;
}

// a stalled thread is slow, not dead: it runs again after being passed over
// this often, or as soon as somebody spins
static int stall_over, stall_skips;

// Pick the next thread among runnable ones. `cur_ok`: current may go on.
static Thr *pick(int forced) {
    for (;;) {
        Thr *cand[MAXT];
        int n = 0;
        for (int i = 0; i < nthr; i++)
            if (thr[i].state == T_RUNNABLE) cand[n++] = &thr[i];
        if ((uint64_t)n > st->max_runnable) st->max_runnable = n;
        if (n == 0) {
            uint64_t best = 0;
            for (int i = 0; i < nthr; i++)
                if ((thr[i].state == T_FUTEX || thr[i].state == T_SLEEP) && thr[i].deadline &&
                    (best == 0 || thr[i].deadline < best))
                    best = thr[i].deadline;
            if (best == 0) {
                char *m = sh ? sh->msg : NULL;
                if (m) {
                    int off = snprintf(m, MSG_MAX, "deadlock: no runnable thread; ");
                    for (int i = 0; i < nthr && off < 2000; i++)
                        off += snprintf(m + off, MSG_MAX - off, "t%d=%s ", thr[i].id,
                                        thr[i].state == T_FUTEX  ? "futex"
                                        : thr[i].state == T_JOIN ? "join"
                                        : thr[i].state == T_DONE ? "done"
                                                                 : "?");
                }
                finish(O_DEADLOCK, 71);
            }
            if (best > st->sim_ns) st->sim_ns = best;
            wake_expired();
            continue;
        }
        if (n == 1) {
            // (logged too)
            if (forced && cfg.n_sched) replay_choice(K_BLOCK);
            return cand[0];
        }
        if (cfg.n_sched || cfg.policy == 9) {
            // replay: explicit choices, else keep going / lowest id
            Thr *w = forced ? replay_choice(K_BLOCK) : NULL;
            if (w && w->state == T_RUNNABLE) return w;
            if (!forced && current->state == T_RUNNABLE) return current;
            return cand[0];
        }
        if (cfg.stall_thread && !stall_over) {
            int m = 0;
            for (int i = 0; i < n; i++)
                if (cand[i]->id != (int)cfg.stall_thread) cand[m++] = cand[i];
            if (m < n && ++stall_skips > 3000) stall_over = 1;
            if (m) n = m;
            if (n == 1) return cand[0];
        }
        if (cfg.policy == 1) {
            Thr *b = cand[0];
            for (int i = 1; i < n; i++)
                if (cand[i]->prio > b->prio) b = cand[i];
            return b;
        }
        return cand[below(&rng_s, n)];
    }
}

static void switch_to(Thr *t) {
    Thr *me = self;
    if (t == me) return;
    st->switches++;
    mix(&st->sched_hash, st->steps * 257 + t->id);
    if (trace_fd >= 0) trace_line("S %lu %d->%d\n", (unsigned long)st->steps, me ? me->id : -1, t->id);
    give_token(t);
    if (me && me->state != T_DONE) wait_token(me);
}

static void do_preempt(int yielding) {
    Thr *t;
    if (yielding == 2) {
        // starvation guard: anyone else
        same_run = 0;
        stall_over = 1;
        Thr *cand[MAXT];
        int n = 0;
        for (int i = 0; i < nthr; i++)
            if (thr[i].state == T_RUNNABLE && &thr[i] != self) cand[n++] = &thr[i];
        if (cfg.n_sched || cfg.policy == 9) {
            t = replay_choice(K_YIELD);
            if (!t || t == self || t->state != T_RUNNABLE) t = n ? cand[st->steps % n] : self;
        } else
            t = n ? cand[below(&rng_s, n)] : self;
        if (cfg.policy == 1 && low_prio > 1) self->prio = --low_prio;
    } else
        t = pick(0);
    if (t != self) {
        same_run = 0;
        st->preempts++;
        log_choice(yielding == 2 ? K_YIELD : K_PREEMPT, t->id);
        switch_to(t);
    }
}

// Called at every interception point by the token holder.
static inline void step(int kind) {
    if (!sim_on || !self) return;
    st->steps++;
    if (st->steps > cfg.max_steps) {
        if (sh) snprintf(sh->msg, MSG_MAX, "step cap of %lu reached", (unsigned long)cfg.max_steps);
        finish(O_STEPCAP, 72);
    }
    if (!multi) return;
    (void)kind;
    if (++same_run > 50000) {
        do_preempt(2);
        return;
    }
    if (cfg.n_sched) {
        Thr *t = replay_choice(K_PREEMPT);
        if (t && t != self && t->state == T_RUNNABLE) {
            same_run = 0;
            st->preempts++;
            log_choice(K_PREEMPT, t->id);
            switch_to(t);
        }
        return;
    }
    if (cfg.policy == 1) {
        if (pct_left && st->steps >= next_change) {
            pct_left--;
            self->prio = --low_prio;
            next_change = st->steps + 1 + below(&rng_s, cfg.pct_len / (cfg.pct_depth ? cfg.pct_depth : 1) * 2 + 1);
            do_preempt(0);
        }
        return;
    }
    if (--countdown <= 0) {
        sample_countdown();
        do_preempt(0);
    }
}

static void block_and_switch(void) {
    st->blocks++;
    same_run = 0;
    Thr *t = pick(1);
    if (multi) log_choice(K_BLOCK, t->id);
    if (t != self) switch_to(t);
}

void sim_yield(void) { step(1); }

int sched_yield(void) {
    if (!sim_on || !self) return (int)ret_errno(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
    st->sim_ns += 1000;
    step(2);
    if (multi) {
        if (cfg.policy == 1 && low_prio > 1) self->prio = --low_prio;
        // a yielding thread lets somebody else go
        do_preempt(2);
    }
    return 0;
}

static void thread_exit_key(void *p) {
    Thr *t = p;
    if (!t) return;
    // std cleans up the thread (and drops its handle) in a destructor of its own:
    // wait for the third round of destructors, after which nothing of the thread runs any more
    if (t->rounds++ < 2 && !pthread_setspecific(exit_key, t)) return;
    t->state = T_DONE;
    for (int i = 0; i < nthr; i++)
        if (thr[i].state == T_JOIN && thr[i].joining == t) thr[i].state = T_RUNNABLE;
    st->blocks++;
    same_run = 0;
    Thr *n = pick(1);
    log_choice(K_BLOCK, n->id);
    self = NULL;
    st->switches++;
    mix(&st->sched_hash, st->steps * 257 + n->id);
    give_token(n);
}

static void *trampoline(void *p) {
    Thr *t = p;
    wait_token(t);
    self = t;
    pthread_setspecific(exit_key, t);
    return t->fn(t->arg);
}

static void resolve(void) {
    if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
}

// (glibc says 0 for a stack it was given, and std wants a guard: there is one below each)
int pthread_attr_getguardsize(const pthread_attr_t *attr, size_t *n) {
    static int (*real)(const pthread_attr_t *, size_t *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_attr_getguardsize");
    int r = real(attr, n);
    if (!r && !*n) *n = 4096;
    return r;
}

// Stacks (and with them the thread-local storage) are at fixed places: std keeps a map ordered by
// the address of errno, and glibc's own choice depends on which threads have really ended.
#define STACK (2ul << 20)
#define SLOT (STACK + (64ul << 10))
static uint8_t *stacks;
static int stack_of(int id, const pthread_attr_t *attr, pthread_attr_t *own) {
    size_t want = 0;
    int detach = PTHREAD_CREATE_JOINABLE;
    if (attr && (pthread_attr_getstacksize(attr, &want) || pthread_attr_getdetachstate(attr, &detach))) return 0;
    if (want > STACK) return 0;
    if (!stacks) {
        long r = raw6(SYS_mmap, 0, MAXT * SLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (r < 0 && r > -4096) return 0;
        stacks = (uint8_t *)r;
        raw6(SYS_madvise, r, MAXT * SLOT, MADV_NOHUGEPAGE, 0, 0, 0);
    }
    uint8_t *base = stacks + id * SLOT;
    raw6(SYS_mprotect, (long)base, SLOT - STACK, PROT_NONE, 0, 0, 0);
    if (pthread_attr_init(own) || pthread_attr_setstack(own, base + (SLOT - STACK), STACK)) return 0;
    return !pthread_attr_setdetachstate(own, detach);
}

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    resolve();
    if (!sim_on || !self) return real_create(out, attr, fn, arg);
    if (nthr >= MAXT) return EAGAIN;
    Thr *t = &thr[nthr];
    memset(t, 0, sizeof *t);
    t->id = nthr;
    t->fn = fn;
    t->arg = arg;
    t->state = T_RUNNABLE;
    t->prio = cfg.policy == 1 ? 1000000 + (uint32_t)below(&rng_s, 1000000) : 0;
    pthread_attr_t own;
    int r = real_create(&t->real, stack_of(t->id, attr, &own) ? &own : attr, trampoline, t);
    if (r) return r;
    *out = t->real;
    nthr++;
    st->threads++;
    multi = 1;
    step(3);
    return 0;
}

int pthread_join(pthread_t th, void **ret) {
    resolve();
    if (!sim_on || !self) return real_join(th, ret);
    step(4);
    Thr *t = NULL;
    for (int i = nthr - 1; i >= 0; i--)
        if (i && pthread_equal(thr[i].real, th)) { t = &thr[i]; break; }
    while (t && t->state != T_DONE) {
        self->state = T_JOIN;
        self->joining = t;
        block_and_switch();
    }
    return real_join(th, ret);
}

// ---------------------------------------------------------------- futex
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t val3) {
    int cmd = op & FUTEX_CMD_MASK;
    switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
        step(5);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        if (cfg.p_spurious && below(&rng_w, 65536) < cfg.p_spurious) {
            st->f_spurious++;
            if (multi) do_preempt(2);
            return 0;
        }
        self->state = T_FUTEX;
        self->faddr = addr;
        self->fbits = cmd == FUTEX_WAIT ? 0xffffffffu : val3;
        self->timedout = 0;
        self->wait_seq = ++wait_seq;
        self->deadline = 0;
        if (ts) {
            uint64_t ns = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
            // std uses absolute CLOCK_MONOTONIC with WAIT_BITSET
            self->deadline = cmd == FUTEX_WAIT ? st->sim_ns + ns + 1 : (ns > 1000000000000ull ? ns - 1000000000000ull : 1);
            if (self->deadline == 0) self->deadline = 1;
        }
        block_and_switch();
        if (self->timedout) { self->timedout = 0; errno = ETIMEDOUT; return -1; }
        return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
        uint32_t bits = cmd == FUTEX_WAKE ? 0xffffffffu : val3;
        long woken = 0;
        while ((uint32_t)woken < val) {
            Thr *w[MAXT];
            int n = 0;
            for (int i = 0; i < nthr; i++)
                if (thr[i].state == T_FUTEX && thr[i].faddr == addr && (thr[i].fbits & bits)) w[n++] = &thr[i];
            if (!n) break;
            Thr *t;
            if (cfg.n_sched || cfg.policy == 9) {
                Thr *q = n > 1 ? replay_choice(K_WAKE) : NULL;
                t = w[0];
                for (int i = 1; i < n; i++) if (w[i]->wait_seq < t->wait_seq) t = w[i];
                for (int i = 0; q && i < n; i++) if (w[i] == q) t = q;
            } else
                t = w[below(&rng_s, n)];
            if (n > 1) log_choice(K_WAKE, t->id);
            t->state = T_RUNNABLE;
            t->deadline = 0;
            woken++;
            st->wakes++;
        }
        step(6);
        return woken;
    }
    default:
        return ret_errno(raw6(SYS_futex, (long)addr, op, val, (long)ts, 0, val3));
    }
}

static ssize_t sim_getrandom(void *buf, size_t n) {
    uint8_t *p = buf;
    uint64_t v = 0;
    for (size_t i = 0; i < n; i++) {
        if ((i & 7) == 0) v = splitmix(&rng_e);
        p[i] = (uint8_t)(v >> (8 * (i & 7)));
    }
    return (ssize_t)n;
}

ssize_t getrandom(void *buf, size_t n, unsigned fl) {
    if (!sim_on) return ret_errno(raw6(SYS_getrandom, (long)buf, n, fl, 0, 0, 0));
    return sim_getrandom(buf, n);
}

ssize_t copy_file_range(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned fl);

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (sim_on && self) {
        if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
        if (n == SYS_copy_file_range) return copy_file_range((int)a, (off64_t *)b, (int)c, (off64_t *)d, (size_t)e, (unsigned)f);
    }
    if (sim_on && n == SYS_getrandom) return sim_getrandom((void *)a, (size_t)b);
    return ret_errno(raw6(n, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- clocks
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!sim_on) return (int)ret_errno(raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
    st->sim_ns += 100;
    uint64_t t = 1000000000000ull + st->sim_ns;
    if (id == CLOCK_REALTIME) t += 1700000000ull * 1000000000ull;
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}
static void sim_sleep(uint64_t ns) {
    self->state = T_SLEEP;
    self->deadline = st->sim_ns + ns + 1;
    block_and_switch();
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!sim_on || !self) return (int)ret_errno(raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
    sim_sleep((uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *rq, struct timespec *rm) {
    if (!sim_on || !self) {
        long r = raw6(SYS_clock_nanosleep, id, fl, (long)rq, (long)rm, 0, 0);
        return (int)-r;
    }
    uint64_t ns = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
    if (fl & TIMER_ABSTIME) {
        uint64_t now = 1000000000000ull + st->sim_ns;
        ns = ns > now ? ns - now : 0;
    }
    sim_sleep(ns);
    return 0;
}

int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
    if (!sim_on) {
        long r = raw6(SYS_sched_getaffinity, pid, sz, (long)set, 0, 0, 0);
        if (r < 0) { errno = (int)-r; return -1; }
        memset((char *)set + r, 0, sz - r);
        return 0;
    }
    memset(set, 0, sz);
    for (uint32_t i = 0; i < cfg.ncpu; i++) CPU_SET_S(i, sz, set);
    return 0;
}

// ---------------------------------------------------------------- file I/O
#define MAXFD 4096
static uint8_t fdcls[MAXFD]; // 0 none, 1 out, 2 src, 3 store
static uint32_t cls_mask(int c) { return c == 1 ? C_OUT : c == 2 ? C_SRC : C_STORE; }

static int path_class(const char *p) {
    if (!sim_on || !self || !p) return 0;
    size_t n = strlen(cfg.root);
    if (n == 0 || strncmp(p, cfg.root, n) != 0) return 0;
    p += n;
    if (!strncmp(p, "/src", 4)) return 2;
    if (!strncmp(p, "/store", 6)) return 3;
    return 1;
}
static int fd_class(int fd) { return sim_on && self && fd >= 0 && fd < MAXFD ? fdcls[fd] : 0; }
static int fault_hit;

static void io_log(int kind, int cls, int64_t len, int64_t res) {
    mix(&st->io_hash, (uint64_t)kind * 1000003 + cls * 31 + (uint64_t)len * 7 + (uint64_t)res);
    if (trace_fd >= 0)
        trace_line("I t%d kind=%d class=%d len=%ld res=%ld\n", self ? self->id : -1, kind, cls, (long)len, (long)res);
}

// returns 1 when this operation must fail with *err, 2 when the process must die here
static int consult_fault(int kind, int cls, int *err) {
    step(10);
    st->sim_ns += 2000;
    if (cfg.fault_kind == F_NONE) return 0;
    uint32_t m = cfg.fault_mask;
    if (!(m & (uint32_t)kind) || !(m & cls_mask(cls))) return 0;
    uint64_t idx = st->eligible++;
    if (cfg.fault_then && fault_hit && idx == cfg.fault_at + cfg.fault_then) {
        st->f_crash++;
        return 2;
    }
    if (idx == cfg.fault_at || (cfg.fault_sticky && fault_hit)) {
        fault_hit = 1;
        if (cfg.fault_kind == F_ERRNO) {
            st->f_errno++;
            *err = (int)cfg.fault_errno;
            return 1;
        }
        st->f_crash++;
        return 2;
    }
    return 0;
}
static void crash_now(void) {
    io_log(99, 0, 0, 0);
    finish(O_CRASH, 70);
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    int c = dirfd == AT_FDCWD || (path && path[0] == '/') ? path_class(path) : 0;
    if (sim_on && path && (!strcmp(path, "/proc/self/cgroup") || !strncmp(path, "/sys/fs/cgroup", 14))) {
        errno = ENOENT;
        return -1;
    }
    if (c) {
        int err = 0;
        st->n_open++;
        int k = (flags & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) ? (C_OPEN | C_META) : C_OPEN;
        int f = consult_fault(k, c, &err);
        if (f == 2) crash_now();
        if (f == 1) { io_log(C_OPEN, c, flags, -err); errno = err; return -1; }
    }
    long r = raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
    if (r >= 0 && r < MAXFD) fdcls[r] = (uint8_t)c;
    if (c) io_log(C_OPEN, c, flags, r < 0 ? r : 0);
    return (int)ret_errno(r);
}
#define OPEN_BODY(D, P, F)                                  \
    mode_t mode = 0;                                        \
    if ((F) & (O_CREAT | O_TMPFILE)) {                      \
        va_list ap;                                         \
        va_start(ap, F);                                    \
        mode = va_arg(ap, mode_t);                          \
        va_end(ap);                                         \
    }                                                       \
    return do_open(D, P, F, mode);
int open(const char *p, int fl, ...) { OPEN_BODY(AT_FDCWD, p, fl) }
int open64(const char *p, int fl, ...) { OPEN_BODY(AT_FDCWD, p, fl) }
int openat(int d, const char *p, int fl, ...) { OPEN_BODY(d, p, fl) }
int openat64(int d, const char *p, int fl, ...) { OPEN_BODY(d, p, fl) }

int close(int fd) {
    if (fd_class(fd)) step(11);
    if (sim_on && fd >= 0 && fd < MAXFD) fdcls[fd] = 0;
    return (int)ret_errno(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int do_fcntl(int fd, int cmd, long arg) {
    long r = raw6(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
    if (sim_on && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD)
        fdcls[r] = fdcls[fd];
    return (int)ret_errno(r);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int dup(int fd) {
    long r = raw6(SYS_dup, fd, 0, 0, 0, 0, 0);
    if (sim_on && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) fdcls[r] = fdcls[fd];
    return (int)ret_errno(r);
}

static int read_pre(int c, size_t *n, int *err) {
    st->n_read++;
    int f = consult_fault(C_READ, c, err);
    if (f == 2) crash_now();
    if (f) return 1;
    if (cfg.p_eintr && below(&rng_i, 65536) < cfg.p_eintr) { st->f_eintr++; *err = EINTR; return 1; }
    if (*n > 1 && cfg.p_short_read && below(&rng_i, 65536) < cfg.p_short_read) {
        size_t m = below(&rng_i, 3) == 0 ? 1 : 1 + below(&rng_i, *n - 1);
        if (m < *n) { *n = m; st->f_short_read++; }
    }
    return 0;
}
ssize_t read(int fd, void *buf, size_t n) {
    int c = fd_class(fd);
    if (!c) return ret_errno(raw6(SYS_read, fd, (long)buf, n, 0, 0, 0));
    int err = 0;
    size_t want = n;
    if (read_pre(c, &n, &err)) { io_log(C_READ, c, want, -err); errno = err; return -1; }
    long r = raw6(SYS_read, fd, (long)buf, n, 0, 0, 0);
    if (r > 0) st->bytes_read += r;
    io_log(C_READ, c, want, r);
    return ret_errno(r);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
    int c = fd_class(fd);
    if (!c) return ret_errno(raw6(SYS_pread64, fd, (long)buf, n, o, 0, 0));
    int err = 0;
    size_t want = n;
    if (read_pre(c, &n, &err)) { io_log(C_READ, c, want, -err); errno = err; return -1; }
    long r = raw6(SYS_pread64, fd, (long)buf, n, o, 0, 0);
    if (r > 0) st->bytes_read += r;
    io_log(C_READ, c, want, r);
    return ret_errno(r);
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }
ssize_t readv(int fd, const struct iovec *v, int nv) {
    int c = fd_class(fd);
    if (!c || nv < 1) return ret_errno(raw6(SYS_readv, fd, (long)v, nv, 0, 0, 0));
    return read(fd, v[0].iov_base, v[0].iov_len);
}

// Whether the byte a fault is set on is one of the next n.
static int at_byte(size_t n, size_t *part) {
    if (!cfg.fault_byte || cfg.fault_kind == F_NONE || fault_hit || st->bytes_written + n < cfg.fault_byte) return 0;
    if (st->bytes_written >= cfg.fault_byte) return 0;
    *part = cfg.fault_byte - 1 - st->bytes_written;
    fault_hit = 1;
    if (cfg.fault_kind == F_CRASH) { st->f_crash++; return 2; }
    st->f_errno++;
    return 1;
}

// A write that must crash first lets `partial` of its bytes reach the file.
static int write_pre(int fd, int c, const void *buf, size_t *n, int *err, off64_t off) {
    st->n_write++;
    int f = consult_fault(C_WRITE, c, err);
    size_t part = (size_t)((unsigned __int128)*n * cfg.fault_partial / 65536);
    if (!f && (f = at_byte(*n, &part)) == 1) *err = (int)cfg.fault_errno;
    if (f) {
        if (part && part <= *n) {
            if (f == 2 || (cfg.fault_errno == ENOSPC)) {
                long r = off < 0 ? raw6(SYS_write, fd, (long)buf, part, 0, 0, 0) : raw6(SYS_pwrite64, fd, (long)buf, part, off, 0, 0);
                if (f == 1 && r > 0) { *n = r; return 2; } // full disk: short write now, ENOSPC next
            }
        }
        if (f == 2) crash_now();
        return 1;
    }
    if (cfg.p_eintr && below(&rng_i, 65536) < cfg.p_eintr) { st->f_eintr++; *err = EINTR; return 1; }
    if (*n > 1 && cfg.p_short_write && below(&rng_i, 65536) < cfg.p_short_write) {
        size_t m = below(&rng_i, 3) == 0 ? 1 : 1 + below(&rng_i, *n - 1);
        if (m < *n) { *n = m; st->f_short_write++; }
    }
    return 0;
}
static ssize_t do_write(int fd, int c, const void *buf, size_t n, off64_t off) {
    int err = 0;
    size_t want = n;
    int f = write_pre(fd, c, buf, &n, &err, off);
    if (f == 1) { io_log(C_WRITE, c, want, -err); errno = err; return -1; }
    long r = f == 2 ? (long)n
             : off < 0 ? raw6(SYS_write, fd, (long)buf, n, 0, 0, 0)
                       : raw6(SYS_pwrite64, fd, (long)buf, n, off, 0, 0);
    if (r > 0) st->bytes_written += r;
    io_log(C_WRITE, c, want, r);
    return ret_errno(r);
}
ssize_t write(int fd, const void *buf, size_t n) {
    int c = fd_class(fd);
    if (!c) return ret_errno(raw6(SYS_write, fd, (long)buf, n, 0, 0, 0));
    return do_write(fd, c, buf, n, -1);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    int c = fd_class(fd);
    if (!c) return ret_errno(raw6(SYS_pwrite64, fd, (long)buf, n, o, 0, 0));
    return do_write(fd, c, buf, n, o);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return pwrite64(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int nv) {
    int c = fd_class(fd);
    if (!c || nv < 1) return ret_errno(raw6(SYS_writev, fd, (long)v, nv, 0, 0, 0));
    int i = 0;
    while (i < nv - 1 && v[i].iov_len == 0) i++;
    return do_write(fd, c, v[i].iov_base, v[i].iov_len, -1);
}
off64_t lseek64(int fd, off64_t o, int w) {
    int c = fd_class(fd);
    if (c) step(12);
    long r = raw6(SYS_lseek, fd, o, w, 0, 0, 0);
    if (c) io_log(40, c, o, r);
    return ret_errno(r);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

static int meta_pre(int c, int what) {
    int err = 0;
    st->n_meta++;
    int f = consult_fault(C_META, c, &err);
    io_log(C_META, c, what, -err);
    if (f == 2) crash_now();
    if (f) { errno = err; return 1; }
    return 0;
}
int ftruncate64(int fd, off64_t n) {
    int c = fd_class(fd);
    if (c && meta_pre(c, 1)) return -1;
    return (int)ret_errno(raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) {
    int c = fd_class(fd);
    if (c && meta_pre(c, 2)) return -1;
    if (c) return 0;
    return (int)ret_errno(raw6(SYS_fsync, fd, 0, 0, 0, 0, 0));
}
int fdatasync(int fd) { return fsync(fd); }
// A crash on rename happens either before (partial < 1/2) or after it.
static int do_renameat2(int od, const char *o, int nd, const char *n, unsigned fl) {
    int c = path_class(n);
    if (!c) c = path_class(o);
    if (c) {
        int err = 0;
        st->n_meta++;
        int f = consult_fault(C_META, c, &err);
        if (f == 2 && cfg.fault_partial < 32768) crash_now();
        if (f == 1) { io_log(C_META, c, 3, -err); errno = err; return -1; }
        long r = raw6(SYS_renameat2, od, (long)o, nd, (long)n, fl, 0);
        io_log(C_META, c, 3, r);
        if (f == 2) crash_now();
        return (int)ret_errno(r);
    }
    return (int)ret_errno(raw6(SYS_renameat2, od, (long)o, nd, (long)n, fl, 0));
}
int rename(const char *o, const char *n) { return do_renameat2(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return do_renameat2(od, o, nd, n, 0); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned fl) { return do_renameat2(od, o, nd, n, fl); }
static int do_link(int od, const char *o, int nd, const char *n, int fl) {
    int c = path_class(n);
    if (c && meta_pre(c, 4)) return -1;
    return (int)ret_errno(raw6(SYS_linkat, od, (long)o, nd, (long)n, fl, 0));
}
int link(const char *o, const char *n) { return do_link(AT_FDCWD, o, AT_FDCWD, n, 0); }
int linkat(int od, const char *o, int nd, const char *n, int fl) { return do_link(od, o, nd, n, fl); }
static int do_unlink(int d, const char *p, int fl) {
    int c = path_class(p);
    if (c && meta_pre(c, 5)) return -1;
    return (int)ret_errno(raw6(SYS_unlinkat, d, (long)p, fl, 0, 0, 0));
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }

ssize_t copy_file_range(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned fl) {
    int c = fd_class(fo);
    if (!c) c = fd_class(fi);
    if (!c) return ret_errno(raw6(SYS_copy_file_range, fi, (long)oi, fo, (long)oo, n, fl));
    st->n_cfr++;
    int err = 0;
    int f = consult_fault(C_WRITE, c, &err);
    size_t part = (size_t)((unsigned __int128)(n > (1 << 26) ? (1 << 26) : n) * cfg.fault_partial / 65536);
    if (!f) {
        struct stat sb;
        off64_t at = oi ? *oi : raw6(SYS_lseek, fi, 0, SEEK_CUR, 0, 0, 0);
        if (cfg.fault_byte && fstat(fi, &sb) == 0 && sb.st_size > at && (f = at_byte((size_t)(sb.st_size - at) < n ? (size_t)(sb.st_size - at) : n, &part)) == 1) err = (int)cfg.fault_errno;
    }
    if (f == 2) {
        if (part) raw6(SYS_copy_file_range, fi, (long)oi, fo, (long)oo, part, fl);
        crash_now();
    }
    if (f == 1) { io_log(50, c, n, -err); errno = err; return -1; }
    if (cfg.cfr_mode) {
        st->f_cfr++;
        errno = cfg.cfr_mode == 1 ? ENOSYS : EXDEV;
        io_log(50, c, n, -errno);
        return -1;
    }
    if (n > 1 && cfg.p_short_write && below(&rng_i, 65536) < cfg.p_short_write) {
        struct stat sb;
        size_t lim = n;
        if (fstat(fi, &sb) == 0 && (size_t)sb.st_size < lim) lim = sb.st_size;
        if (lim > 1) { n = 1 + below(&rng_i, lim - 1); st->f_short_write++; }
    }
    long r = raw6(SYS_copy_file_range, fi, (long)oi, fo, (long)oo, n, fl);
    if (r > 0) st->bytes_written += r;
    io_log(50, c, n, r);
    return ret_errno(r);
}
static ssize_t do_sendfile(int o, int i, off64_t *off, size_t n) {
    int c = fd_class(o);
    if (!c) c = fd_class(i);
    if (!c) return ret_errno(raw6(SYS_sendfile, o, i, (long)off, n, 0, 0));
    st->n_cfr++;
    int err = 0;
    int f = consult_fault(C_WRITE, c, &err);
    if (f == 2) {
        size_t part = (size_t)((unsigned __int128)(n > (1 << 26) ? (1 << 26) : n) * cfg.fault_partial / 65536);
        if (part) raw6(SYS_sendfile, o, i, (long)off, part, 0, 0);
        crash_now();
    }
    if (f == 1) { errno = err; return -1; }
    if (cfg.cfr_mode == 1) { errno = ENOSYS; return -1; }
    long r = raw6(SYS_sendfile, o, i, (long)off, n, 0, 0);
    if (r > 0) st->bytes_written += r;
    io_log(51, c, n, r);
    return ret_errno(r);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return do_sendfile(o, i, off, n); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return do_sendfile(o, i, off, n); }
ssize_t splice(int fi, off64_t *oi, int fo, off64_t *oo, size_t n, unsigned fl) {
    if (fd_class(fi) || fd_class(fo)) { errno = EINVAL; return -1; }
    return ret_errno(raw6(SYS_splice, fi, (long)oi, fo, (long)oo, n, fl));
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t o) {
    int c = fd >= 0 ? fd_class(fd) : 0;
    if (c) {
        int err = 0;
        st->n_mmap++;
        int f = consult_fault(C_MMAP, c, &err);
        io_log(C_MMAP, c, n, -err);
        if (f == 2) crash_now();
        if (f) { st->f_mmap++; errno = err; return MAP_FAILED; }
    }
    long r = raw6(SYS_mmap, (long)a, n, prot, fl, fd, o);
    if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
    return (void *)r;
}
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { return mmap64(a, n, prot, fl, fd, o); }

// ---------------------------------------------------------------- allocator
// Small blocks come from a bump arena and are never reused within one run;
// big ones are mapped on their own, right-aligned against a guard page, and
// unmapped when freed.  Fresh memory is filled with 0xA5, freed with 0xDD.
#define ARENA_CHUNK (1ul << 22)
#define BIG (1ul << 16)
static uint8_t *arena, *arena_end;
static int alloc_sim; // set in the simulated child
static uint64_t alloc_small_total;

static void *raw_map(size_t n) {
    long r = raw6(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return r < 0 && r > -4096 ? NULL : (void *)r;
}
static void *big_alloc(size_t n, size_t al) {
    if (n > (8ul << 30)) return NULL; // more than the simulated machine has
    size_t pg = 4096, body = (n + pg - 1) & ~(pg - 1);
    uint8_t *m = raw_map(body + 2 * pg);
    if (!m) return NULL;
    raw6(SYS_mprotect, (long)(m + pg + body), pg, PROT_NONE, 0, 0, 0);
    size_t lead = (body - n) & ~(al - 1);
    return m + pg + lead;
}
static void big_free(void *p, size_t n) {
    size_t pg = 4096, body = (n + pg - 1) & ~(pg - 1);
    uint8_t *m = (uint8_t *)((uintptr_t)p & ~(pg - 1)) - pg;
    raw6(SYS_munmap, (long)m, body + 2 * pg, 0, 0, 0, 0);
}
// `owner` is encoded by address range: arena chunks and big maps belong to us.
#define NCHUNK 768
static uint8_t *chunks[NCHUNK];
static int nchunk;

void *sim_alloc(size_t n, size_t al, int zero) {
    if (!alloc_sim) {
        void *p;
        if (al <= 16) p = zero ? calloc(1, n) : malloc(n);
        else {
            p = NULL;
            if (posix_memalign(&p, al, n)) return NULL;
            if (zero) memset(p, 0, n);
        }
        return p;
    }
    st->allocs++;
    step(20);
    if (n >= BIG || al > 4096) {
        if (al > 4096) return NULL;
        uint8_t *p = big_alloc(n, al);
        if (p && !zero && n <= (64ul << 20)) memset(p, 0xA5, n);
        return p;
    }
    uint8_t *p = (uint8_t *)(((uintptr_t)arena + al - 1) & ~(al - 1));
    if (!arena || p + n + 8 > arena_end) {
        arena = raw_map(ARENA_CHUNK);
        if (!arena || nchunk >= NCHUNK) return NULL;
        chunks[nchunk++] = arena;
        arena_end = arena + ARENA_CHUNK;
        p = (uint8_t *)(((uintptr_t)arena + al - 1) & ~(al - 1));
    }
    arena = p + n + 8; // an unmapped-looking gap between neighbours
    memset(p, zero ? 0 : 0xA5, n);
    alloc_small_total += n;
    return p;
}
static int in_arena(void *p) {
    for (int i = nchunk - 1; i >= 0; i--)
        if ((uint8_t *)p >= chunks[i] && (uint8_t *)p < chunks[i] + ARENA_CHUNK) return 1;
    return 0;
}
void sim_free(void *p, size_t n, size_t al) {
    (void)al;
    if (!alloc_sim) { free(p); return; }
    if (n >= BIG) {
        // big blocks made before simulation began live inside malloc's memory; leak them
        uintptr_t a = (uintptr_t)p;
        extern int sim_is_ours_big(void *, size_t);
        if (sim_is_ours_big(p, n)) big_free(p, n);
        (void)a;
        return;
    }
    if (in_arena(p)) memset(p, 0xDD, n);
    // otherwise: allocated before the simulation; leaked on purpose
}
// A table of live big blocks.
#define NBIG 65536
static uintptr_t bigs[NBIG];
int sim_is_ours_big(void *p, size_t n) {
    (void)n;
    uintptr_t a = (uintptr_t)p;
    size_t h = (a >> 12) * 0x9E3779B97F4A7C15ull >> 48;
    for (size_t i = 0; i < NBIG; i++) {
        size_t k = (h + i) & (NBIG - 1);
        if (bigs[k] == 0) return 0;
        if (bigs[k] == a) { bigs[k] = 1; return 1; }
    }
    return 0;
}
static void big_note(void *p) {
    uintptr_t a = (uintptr_t)p;
    size_t h = (a >> 12) * 0x9E3779B97F4A7C15ull >> 48;
    for (size_t i = 0; i < NBIG; i++) {
        size_t k = (h + i) & (NBIG - 1);
        if (bigs[k] <= 1) { bigs[k] = a; return; }
    }
}
void *sim_alloc_entry(size_t n, size_t al, int zero) {
    void *p = sim_alloc(n, al, zero);
    if (alloc_sim && p && (n >= BIG)) big_note(p);
    return p;
}

// ---------------------------------------------------------------- atomics
#define AT_STEP() do { if (sim_on) { if (self) { st->atomics++; step(30); } } } while (0)
#define DEF(N, T)                                                                                                    \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) { (void)mo; AT_STEP(); return __atomic_load_n(a, 5); }    \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { (void)mo; AT_STEP(); __atomic_store_n(a, v, 5); }    \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { (void)mo; AT_STEP(); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { (void)mo; AT_STEP(); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; AT_STEP(); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { (void)mo; AT_STEP(); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { (void)mo; AT_STEP(); return __atomic_fetch_or(a, v, 5); }   \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; AT_STEP(); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; AT_STEP(); return __atomic_fetch_nand(a, v, 5); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                            \
        (void)mo; (void)fmo; AT_STEP();                                                                              \
        __atomic_compare_exchange_n(a, &c, v, 0, 5, 5);                                                              \
        return c;                                                                                                    \
    }                                                                                                                \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {                      \
        (void)mo; (void)fmo; AT_STEP(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                      \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {                        \
        (void)mo; (void)fmo; AT_STEP(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
DEF(8, uint8_t)
DEF(16, uint16_t)
DEF(32, uint32_t)
DEF(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; AT_STEP(); __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }

// ---------------------------------------------------------------- entry points
// Called in the freshly forked child; from here on this thread is thread 0.
void sim_begin(const SimCfg *c, SimShared *s) {
    resolve();
    cfg = *c;
    sh = s;
    if (sh) st = &sh->st;
    rng_s = cfg.sched_seed;
    rng_e = cfg.env_seed;
    rng_i = cfg.io_seed;
    rng_w = cfg.sched_seed ^ 0x5bd1e9955bd1e995ull;
    pthread_key_create(&exit_key, thread_exit_key);
    nthr = 1;
    memset(&thr[0], 0, sizeof thr[0]);
    thr[0].state = T_RUNNABLE;
    thr[0].prio = cfg.policy == 1 ? 1000000 + (uint32_t)below(&rng_s, 1000000) : 0;
    thr[0].real = pthread_self();
    low_prio = 1000000;
    pct_left = cfg.pct_depth;
    next_change = 1 + below(&rng_s, cfg.pct_len + 1);
    self = current = &thr[0];
    multi = 0;
    sample_countdown();
    if (cfg.trace) trace_fd = (int)raw6(SYS_openat, AT_FDCWD, (long)"/proc/self/fd/2", O_WRONLY, 0, 0, 0);
    if (cfg.trace && trace_fd < 0) trace_fd = 2;
    alloc_sim = 1;
    sim_on = 1;
}
// Leaves simulation in the calling thread for good: the process ends at once.
void sim_exit(int code) { finish(O_FINISHED, code); }
// Pauses interception (harness bookkeeping inside a simulated phase).
int sim_pause(void) { int o = sim_on; sim_on = 0; return o; }
void sim_resume(int o) { sim_on = o; }
uint64_t sim_steps(void) { return st->steps; }
int sim_thread_id(void) { return self ? self->id : -1; }
int sim_active(void) { return sim_on; }
SimShared *sim_shared(void) { return sh; }
