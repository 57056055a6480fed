/* Deterministic scheduler: fibers, thread-local storage, simulated locks, instrumentation callbacks. */
#include "sim.h"

fiber_t fibers[MAXTHREADS + 2];
fiber_t *cur;
static fiber_t *mainf = &fibers[MAXTHREADS], *helper = &fibers[MAXTHREADS + 1];
#define NFIB (MAXTHREADS + 2)
long acc_budget = 1L << 60;
static long acc_granted = 1L << 60;
static int armed; /* a preemption is armed in acc_budget */
int quiescent_now = 1;
static u64 total_done;
static u64 helper_turn;
static int barrier_idx[MAXOPS + 1], nbarriers, next_barrier;
static int window_lo = -1, window_hi = -1; /* ops allowed while the heap is protected */
int in_sim; /* >0 while simulator code runs on behalf of an allocator call */

extern char __start_sim_tls[], __stop_sim_tls[];
__attribute__((section("sim_tls"), used)) static u64 sim_tls_dummy = 0;
static size_t tls_len(void) { return (size_t) (__stop_sim_tls - __start_sim_tls); }
static u8 *tls_init;

#define STACK (1 << 20)

void ctx_switch(void **save, void *to);
__asm__(".text\n.globl ctx_switch\n.type ctx_switch,@function\nctx_switch:\n"
        "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
        "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
        "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
        ".size ctx_switch,.-ctx_switch\n");

static int is_barrier(int code) {
    switch(code) {
    case O_barrier: case O_leaks: case O_zleaks: case O_usage: case O_protect: case O_misuse: case O_corrupt: case O_initagain:
    case O_footmark: case O_footcheck: case O_guardcheck: case O_uread: case O_traces: case O_treset: case O_uafplant: case O_uafderef:
    case O_samplecorrupt: case O_observe: case O_memover: case O_destroy: case O_tagstale: case O_edraw: case O_eswitch:
        return 1;
    case O_impossible:
        return feat.abort_null;
    }
    return 0;
}

static int next_op_of(int tid, int from) {
    for(u32 i = from; i < plan->nops; i++)
        if(plan->op[i].tid == tid)
            return (int) i;
    return -1;
}

void tls_reset(fiber_t *f) {
    if(f == cur)
        memcpy(__start_sim_tls, tls_init, tls_len());
    else
        memcpy(f->tls, tls_init, tls_len());
}

static void arm(void) {
    fiber_t *f = cur;
    long lim = (long) (f->step_limit - f->steps);
    armed = 0;
    if(f->in_op >= 0 && !f->nopreempt) {
        op_t *o = &plan->op[f->in_op];
        if(f->prei < o->npre && o->pre[f->prei].s == f->sync_idx) {
            long a = (long) o->pre[f->prei].a - (long) f->acc_since;
            if(a < 1)
                a = 1;
            if(a <= lim) {
                lim = a;
                armed = 1;
            }
        }
    }
    acc_granted = acc_budget = lim;
}
static void settle(void) {
    u64 used = (u64) (acc_granted - acc_budget);
    cur->steps += used;
    cur->acc_since += used;
    res->accesses += used;
    acc_granted = acc_budget;
}

static void switch_to(fiber_t *f) {
    fiber_t *old = cur;
    settle();
    old->err = errno;
    memcpy(old->tls, __start_sim_tls, tls_len());
    memcpy(__start_sim_tls, f->tls, tls_len());
    cur = f;
    errno = f->err;
    arm();
    res->switches++;
    ctx_switch(&old->sp, f->sp);
}

/* give control back to the scheduler */
static void yield(void) { switch_to(mainf); }

static void note_interleave(void) {
    u64 v = (u64) cur->id << 56 ^ (u64) (cur->in_op >= 0 ? plan->op[cur->in_op].code : 255) << 40 ^ cur->sync_idx;
    res->ileave = mix64(res->ileave ^ v);
    hash_in(v);
}

void preempt_here(u32 d) {
    if(cur == mainf)
        return;
    note_interleave();
    cur->stall = d;
    if(plan->cpus > 1 && (d & 1)) {
        cur->cpu = (cur->cpu + 1 + d / 2) % plan->cpus;
        model_cpu_visit();
        PROBE(migrate);
    }
    yield();
}

static void take_preempt(void) {
    op_t *o = &plan->op[cur->in_op];
    u32 d = o->pre[cur->prei].d;
    cur->prei++;
    res->preempts_hit++;
    PROBE(preempt);
    preempt_here(d ? d : 1);
}

/* the access budget ran out: a preemption point or the step limit */
static void acc_slow(void) {
    settle();
    if(armed) {
        take_preempt();
        arm();
        return;
    }
    if(cur->steps >= cur->step_limit)
        sim_violation("progress", "operation %d (%s) of thread %d made %llu memory accesses without finishing", cur->in_op,
                      cur->in_op >= 0 ? op_names[plan->op[cur->in_op].code] : "-", cur->id, (unsigned long long) cur->steps);
    arm();
}

void sched_point_sync(void) {
    if(!cur)
        return;
    settle();
    res->syncs++;
    cur->sync_idx++;
    cur->acc_since = 0;
    if(cur == helper && helper_turn++ % 7 < 3 && mix64(plan->place_seed + helper_turn) % 3 == 0) {
        note_interleave();
        helper->stall = 1 + (u32) (mix64(helper_turn) % 3);
        yield();
    }
    if(cur == mainf || cur->in_op < 0 || cur->nopreempt) {
        arm();
        return;
    }
    op_t *o = &plan->op[cur->in_op];
    while(cur->prei < o->npre && o->pre[cur->prei].s < cur->sync_idx)
        cur->prei++;
    if(cur->prei < o->npre && o->pre[cur->prei].s == cur->sync_idx && o->pre[cur->prei].a == 0)
        take_preempt();
    arm();
}

static int (*helper_ready)(void); /* what the helper thread waits for */
/* ---------------------------------------------------------------- locks */
typedef struct lock {
    void *addr;
    fiber_t *owner;
} lock_t;
static lock_t locks[64];
static int nlocks;
static lock_t *lock_of(void *m) {
    for(int i = 0; i < nlocks; i++)
        if(locks[i].addr == m)
            return &locks[i];
    if(nlocks == 64)
        sim_internal("too many locks");
    locks[nlocks].addr = m;
    locks[nlocks].owner = NULL;
    return &locks[nlocks++];
}
int locks_held(void) {
    int n = 0;
    for(int i = 0; i < nlocks; i++)
        n += locks[i].owner != NULL;
    return n;
}
int sim_pthread_mutex_init(void *m, void *a) {
    lock_t *l = lock_of(m);
    if(l->owner && l->owner != cur)
        sim_violation("lock", "a lock held by thread %d is initialised again by thread %d", l->owner->id, cur->id);
    l->owner = NULL;
    return 0;
}
int sim_pthread_mutex_destroy(void *m) {
    lock_of(m)->owner = NULL;
    return 0;
}
/* the main context waits for something only the allocator's helper thread can provide */
static int helper_runnable(void) { return !helper->finished && !helper->blocked && (!helper_ready || helper_ready()); }
static void run_helper(lock_t *l) {
    while(l->owner) {
        if(l->owner != helper || !helper_runnable())
            sim_violation("deadlock", "a lock is still held although no call is in progress");
        helper->stall = 0;
        switch_to(helper);
    }
}
static int try_own(lock_t *l) {
    if(l->owner)
        return 0;
    l->owner = cur;
    hash_in((u64) cur->id * 64 + (u64) (l - locks));
    return 1;
}
int sim_pthread_mutex_lock(void *m) {
    sched_point_sync();
    lock_t *l = lock_of(m);
    if(try_own(l))
        return 0;
    if(l->owner == cur)
        sim_violation("deadlock", "thread %d locks a lock it already holds (operation %s)", cur->id,
                      cur->in_op >= 0 ? op_names[plan->op[cur->in_op].code] : "-");
    if(cur == mainf && helper->finished)
        sim_violation("deadlock", "a lock is still held although no call is in progress");
    if(cur == mainf)
        run_helper(l);
    res->lockwaits++;
    PROBE(lockwait);
    while(l->owner) {
        cur->blocked = l;
        note_interleave();
        yield();
    }
    cur->blocked = NULL;
    try_own(l);
    return 0;
}
int sim_pthread_mutex_trylock(void *m) {
    sched_point_sync();
    return try_own(lock_of(m)) ? 0 : EBUSY;
}
int sim_pthread_mutex_unlock(void *m) {
    lock_t *l = lock_of(m);
    if(l->owner && l->owner != cur)
        sim_violation("lock", "thread %d releases a lock held by thread %d", cur->id, l->owner->id);
    if(!l->owner)
        sim_violation("lock", "thread %d releases a lock that nobody holds (operation %s)", cur->id, cur->in_op >= 0 ? op_names[plan->op[cur->in_op].code] : "-");
    for(int i = 0; i < NFIB; i++)
        if(fibers[i].blocked == l)
            fibers[i].blocked = NULL;
    l->owner = NULL;
    sched_point_sync();
    return 0;
}
int sim_sched_yield(void) {
    if(cur && cur != mainf) {
        sched_point_sync();
        preempt_here(1);
    }
    return 0;
}

/* ---------------------------------------------------------------- instrumentation */
#define ACC() do { if(unlikely(--acc_budget <= 0)) acc_slow(); } while(0)
/* a read whose value is not used after all may not fault in this build, but it does in another */
u64 noread_lo, noread_len, noread_step, noread_ok;
static __attribute__((noinline)) void noread_hit(u64 off) {
    if(cur && cur != mainf && off % noread_step >= noread_ok)
        sim_violation("segv", "the byte %llu past the end of the caller's string is read", (unsigned long long) (off % noread_step - noread_ok));
}
#define READ(p) do { if(unlikely((u64) (p) - noread_lo < noread_len)) noread_hit((u64) (p) - noread_lo); } while(0)
#define RW(n) void __tsan_read##n(void *p) { READ(p); ACC(); } void __tsan_write##n(void *p) { ACC(); } \
    void __tsan_unaligned_read##n(void *p) { ACC(); } void __tsan_unaligned_write##n(void *p) { ACC(); } \
    void __tsan_volatile_read##n(void *p) { ACC(); } void __tsan_volatile_write##n(void *p) { ACC(); } \
    void __tsan_read_write##n(void *p) { ACC(); } void __tsan_unaligned_read_write##n(void *p) { ACC(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_func_entry(void *p) { ACC(); }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}
void __tsan_read_range(void *p, size_t n) { ACC(); }
void __tsan_write_range(void *p, size_t n) { ACC(); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
/* long copies and fills can be interrupted in the middle, like the real ones */
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    ACC();
    size_t o = 0;
    if(n > 64 && cur && cur != mainf) {
        o = n / 2 & ~7ULL;
        memcpy(d, s, o);
        ACC();
    }
    memcpy((char *) d + o, (const char *) s + o, n - o);
    return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    ACC();
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    ACC();
    size_t o = 0;
    if(n > 64 && cur && cur != mainf) {
        o = n / 2 & ~7ULL;
        memset(d, c, o);
        ACC();
    }
    memset((char *) d + o, c, n - o);
    return d;
}

#define SPIN_LIMIT 3000
static void spin_fail(void) {
    if(cur == mainf)
        sim_violation("deadlock", "a spin lock is still held although no call is in progress");
    cur->spinning++;
    PROBE(spin);
    if(cur->spinning > SPIN_LIMIT)
        sim_violation("deadlock", "thread %d spins for ever on a lock (operation %s)", cur->id,
                      cur->in_op >= 0 ? op_names[plan->op[cur->in_op].code] : "-");
    note_interleave();
    yield();
}
#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { sched_point_sync(); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { sched_point_sync(); *p = v; for(int i = 0; i < MAXTHREADS; i++) fibers[i].spinning = 0; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { sched_point_sync(); T o = *p; *p = v; \
        if(bits == 8 && o == v && v) spin_fail(); else cur->spinning = 0; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { sched_point_sync(); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { sched_point_sync(); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { sched_point_sync(); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { sched_point_sync(); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { sched_point_sync(); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { sched_point_sync(); \
        if(*p == *e) { *p = v; cur->spinning = 0; return 1; } *e = *p; if(bits == 8) spin_fail(); return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { sched_point_sync(); T o = *p; if(o == e) *p = v; return o; }
ATOM(8, u8)
ATOM(16, uint16_t)
ATOM(32, u32)
ATOM(64, u64)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

/* ---------------------------------------------------------------- threads */
static int stack_fake_frames = 12;
static void thread_body(void);
static __attribute__((noinline)) void deep(int n) { /* gives profilers a real chain of frames to walk */
    if(n > 0)
        deep(n - 1);
    else
        thread_body();
    __asm__ volatile("");
}
static void thread_entry(void) { deep(stack_fake_frames); for(;;) yield(); }

static void thread_body(void) {
    for(;;) {
        int idx = cur->next_op;
        cur->in_op = idx;
        cur->sync_idx = 0;
        cur->acc_since = 0;
        cur->prei = 0;
        cur->steps = 0;
        arm();
        op_exec(idx);
        settle();
        cur->in_op = -1;
        cur->next_op = next_op_of(cur->id, idx + 1);
        cur->sync_idx = 0;
        arm();
        total_done++;
        res->ops_done++;
        hash_in(0x100000 + idx);
        if(next_barrier < nbarriers && barrier_idx[next_barrier] == idx) {
            next_barrier++;
            window_lo = window_hi = -1;
        }
        for(int i = 0; i < MAXTHREADS; i++) {
            fibers[i].spinning = 0;
            if(fibers[i].stall)
                fibers[i].stall--;
        }
        if(cur->next_op < 0)
            cur->finished = 1;
        yield();
    }
}

void sched_init(void) {
    tls_init = malloc(tls_len() + 1);
    memcpy(tls_init, __start_sim_tls, tls_len());
    sim_tls_dummy = 0;
    for(int i = 0; i < NFIB; i++) {
        fiber_t *f = &fibers[i];
        memset(f, 0, sizeof *f);
        f->id = i;
        f->in_op = -1;
        f->next_op = -1;
        f->step_limit = plan->stepk ? (u64) plan->stepk * 1000 : feat.uaf ? 4000000000ULL : 400000000ULL; /* the pointer search reads every zone on a free */
        f->tls = malloc(tls_len() + 1);
        memcpy(f->tls, tls_init, tls_len());
        f->finished = 1;
        if(plan->cpus > 1)
            f->cpu = i % plan->cpus;
    }
    mainf->id = MAXTHREADS;
    mainf->cpu = 0;
    mainf->step_limit = 1ULL << 40;
    cur = mainf;
    arm();
}

static void make_stack(fiber_t *f) {
    f->stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(f->stack == MAP_FAILED)
        sim_internal("no stack");
    u64 *sp = (u64 *) (f->stack + STACK - 64);
    *--sp = 0; /* return address of thread_entry */
    *--sp = (u64) thread_entry;
    for(int i = 0; i < 6; i++)
        *--sp = 0;
    f->sp = sp;
}

/* ---------------------------------------------------------------- the allocator's own helper thread */
static void *(*helper_fn)(void *), *helper_arg;
static void helper_entry(void) {
    helper_fn(helper_arg);
    helper->finished = 1;
    for(;;)
        yield();
}
int sched_helper_start(void *(*fn)(void *), void *arg) {
    if(!helper->finished)
        sim_internal("a second helper thread");
    helper_fn = fn;
    helper_arg = arg;
    make_stack(helper);
    u64 *sp = helper->sp;
    sp[6] = (u64) helper_entry;
    helper->step_limit = 1ULL << 50;
    helper->finished = 0;
    memcpy(helper->tls, tls_init, tls_len());
    return 0;
}
/* called on the helper thread */
void sched_helper_wait(int (*ready)(void)) {
    if(cur != helper)
        sim_internal("a caller thread waits like the helper");
    sched_point_sync();
    while(!ready()) {
        helper_ready = ready;
        yield();
    }
    helper_ready = NULL;
}
/* called on a thread whose access faulted: until sched_fault_wake */
void sched_fault_wait(void *token, int (*pending)(fiber_t *)) {
    if(cur == helper)
        sim_violation("deadlock", "the page fault service touches a page it serves");
    note_interleave();
    cur->blocked = token;
    while(pending(cur)) {
        cur->blocked = token;
        if(cur != mainf) {
            yield();
            continue;
        }
        if(!helper_runnable())
            sim_violation("deadlock", "a page fault is not served: the page fault service waits for a lock");
        helper->stall = 0;
        switch_to(helper);
    }
    cur->blocked = NULL;
}
void sched_fault_wake(void *token) {
    for(int i = 0; i < NFIB; i++)
        if(fibers[i].blocked == token)
            fibers[i].blocked = NULL;
}

static int runnable(fiber_t *f) {
    if(f == helper)
        return helper_runnable();
    if(f->finished || f->blocked)
        return 0;
    if(f->in_op >= 0)
        return 1;
    int i = f->next_op;
    if(next_barrier < nbarriers) {
        int b = barrier_idx[next_barrier];
        if(i > b)
            return i >= window_lo && i <= window_hi;
        if(i == b)
            return total_done == (u64) b;
    }
    return 1;
}

/* let the next `k` operations start while the current (quiescent) one goes on */
void sched_window(int k) {
    window_lo = cur->in_op + 1;
    window_hi = cur->in_op;
    for(int i = window_lo; i < (int) plan->nops && k > 0; i++, k--) {
        if(plan->op[i].tid == cur->id || plan->op[i].code != O_malloc)
            break;
        int dup = 0;
        for(int j = window_lo; j < i; j++)
            dup |= plan->op[j].tid == plan->op[i].tid;
        if(dup)
            break;
        window_hi = i;
    }
}
int sched_all_allocating(void) {
    for(int i = 0; i < MAXTHREADS; i++)
        if(&fibers[i] != cur && fibers[i].in_op >= 0 && fibers[i].past_alloc)
            return 0;
    return 1;
}
void sched_open_window(int k) {
    sched_window(k);
    preempt_here(1000000);
    window_lo = window_hi = -1;
}
int sched_window_waiters(void) {
    int n = 0;
    for(int i = 0; i < MAXTHREADS; i++)
        n += fibers[i].blocked != NULL || fibers[i].spinning > 0;
    return n;
}

int others_in_call(void) {
    for(int i = 0; i < MAXTHREADS; i++)
        if(&fibers[i] != cur && fibers[i].in_op >= 0)
            return 1;
    return 0;
}

void sched_run_all(void) {
    nbarriers = next_barrier = 0;
    total_done = 0;
    for(u32 i = 0; i < plan->nops; i++)
        if(is_barrier(plan->op[i].code))
            barrier_idx[nbarriers++] = (int) i;
    for(int t = 0; t < MAXTHREADS; t++) {
        fibers[t].next_op = next_op_of(t, 0);
        fibers[t].finished = fibers[t].next_op < 0;
        if(!fibers[t].finished)
            make_stack(&fibers[t]);
    }
    u64 idle_spins = 0;
    for(;;) {
        fiber_t *best = NULL, *stalled = NULL;
        int any = 0;
        for(int t = 0; t < MAXTHREADS; t++) {
            fiber_t *f = &fibers[t];
            if(f->finished)
                continue;
            any = 1;
            if(!runnable(f))
                continue;
            int pos = f->in_op >= 0 ? f->in_op : f->next_op;
            if(f->stall || f->spinning) {
                /* least recently failed spinner first, then the shortest stall */
                if(!stalled || f->spinning < stalled->spinning ||
                   (f->spinning == stalled->spinning && f->stall < stalled->stall))
                    stalled = f;
                continue;
            }
            if(!best || pos < (best->in_op >= 0 ? best->in_op : best->next_op))
                best = f;
        }
        if(any && helper_runnable()) { /* as soon as a caller would be, later, or when nobody else can run */
            if(helper->stall && best)
                helper->stall--;
            else if(!best || mix64(plan->place_seed ^ ++helper_turn) % 3 == 0)
                best = helper;
            if(best == helper)
                helper->stall = 0;
        }
        if(!any)
            return;
        if(!best && stalled) {
            best = stalled;
            if(best->stall)
                best->stall = 0;
            else if(++idle_spins > 200000)
                sim_violation("deadlock", "all threads spin");
        }
        if(!best) {
            char b[256];
            int n = 0;
            for(int t = 0; t < MAXTHREADS; t++)
                if(!fibers[t].finished && n < 200)
                    n += snprintf(b + n, sizeof b - n, " thread %d in %s", t,
                                  fibers[t].in_op >= 0 ? op_names[plan->op[fibers[t].in_op].code] : "(between calls)");
            sim_violation("deadlock", "no thread can run:%s", b);
        }
        switch_to(best);
    }
}
