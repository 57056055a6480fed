#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

#define PAGE 4096ULL
#define ZONE_BYTES (4ULL << 20)
#define MAXTHREADS 8
#define MAXSLOTS 256
#define MAXGROUPS 24
#define MAXZONES 64
#define GENZONES 24 /* the zones ordinary operations use */
#define MAXPRE 6
#define MAXFAULTS 8
#define MAXOPS 4096
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

static inline u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
typedef struct { u64 s; } rng_t;
static inline u64 rnd(rng_t *r) { r->s += 0x9e3779b97f4a7c15ULL; return mix64(r->s); }
static inline u64 rndn(rng_t *r, u64 n) { return n ? rnd(r) % n : 0; }
static inline int chance(rng_t *r, int pct) { return (int) rndn(r, 100) < pct; }

/* ---------------------------------------------------------------- plan */
typedef struct { u32 s, a, d; } pre_t;
typedef struct {
    u8 tid, code, npre;
    u64 arg[5];
    pre_t pre[MAXPRE];
} op_t;
enum { F_MMAP, F_MUNMAP, F_MPROTECT, F_MADVISE, F_MLOCK, F_GETRANDOM, F_SIGACTION, F_PRCTL, F_OPEN, F_HUGETLB, F_SHORTRANDOM, F_UFFD, F_KINDS };
typedef struct { u32 kind, nth, count; int err; } fault_t;
enum { PLACE_HINT, PLACE_COMPACT, PLACE_REUSE };
enum { INIT_CTOR, INIT_LAZY, INIT_EXPLICIT, INIT_CTOR_TWICE };
/* run flags */
#define RF_STRICT_LEAK 1  /* compare the leak report with the model at quiescence */
#define RF_DESTROY 2      /* destroy the heap at the end */
#define RF_NOFREEALL 4    /* leave live allocations at the end */
#define RF_FOOTPRINT 8    /* footprint bound armed */
#define RF_PAIR 16        /* run twice with different entropy2 and compare what was recorded */
typedef struct {
    char variant[48], profile[16];
    u64 seed, entropy, entropy2;
    u32 entropy_from; /* getrandom calls from this one on use entropy2 */
    u32 place, lazy, huge, init, nthreads, flags, cpus, stepk;
    u64 place_seed;
    long knob[16];
    u32 nfaults, nops;
    fault_t fault[MAXFAULTS];
    op_t op[MAXOPS];
} plan_t;
extern plan_t *plan;

/* ---------------------------------------------------------------- result */
enum { R_NONE, R_FINE, R_VIOLATION, R_INTERNAL };
#define NPROBE 64
typedef struct {
    volatile int status;
    char kind[32];
    char msg[640];
    char prop[8];
    u64 hash, ileave;
    u64 accesses, syncs, switches, preempts_hit, ops_done, lockwaits;
    u64 faults[F_KINDS];
    u64 probe[NPROBE];
    u64 mapped_peak;
    int ended_by; /* 0 normal, 1 expected abort, 2 fail-stop after fault, 3 probe returned */
    u64 rec_n;
    u64 rec[2048]; /* recorded values for paired runs (category in rcat) */
    u8 rcat[2048];
    char known_msg[8][240];
    u64 known[8];  /* behaviours that are findings on the shipped tree: counted, judged by the caller */
    u64 notes;
    char note_kind[32], note_msg[320];
} result_t;
extern result_t *res;

void sim_violation(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
/* true: this kind does not belong to the property being decided and the run can go on (the caller only notes it) */
int sim_foreign(const char *kind);
void sim_note(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define V(kind, ...)                         \
    do {                                     \
        if(sim_foreign(kind))                \
            sim_note(kind, __VA_ARGS__);     \
        else                                 \
            sim_violation(kind, __VA_ARGS__); \
    } while(0)
void sim_internal(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void sim_finish(int ended_by) __attribute__((noreturn));
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void rec(int cat, u64 v);
void known(int which, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
enum { KN_ALIGN, KN_ZCYCLE, KN_COUNT };
extern int verbose, probing;
extern int recording;
/* run fn in a forked copy of this run: it must end in an abort (or fault) of the allocator, or, if may_return, may return */
int probe_run(void (*fn)(void *), void *arg, int may_return, const char *what);

static inline void hash_in(u64 v) { res->hash = mix64(res->hash ^ v); }

/* ---------------------------------------------------------------- probes */
#define PROBES(X) \
    X(retire) X(zdestroy) X(bignew) X(bigreuse) X(bigretire) X(bigcachefull) \
    X(expabort) X(failstop) X(nullret) X(permsmall) X(permbig) X(sample) X(lockwait) X(preempt) X(threadexit) \
    X(zerosize) X(realloc_b2s) X(realloc_s2b) X(realloc_b2b) X(reissue) X(decoy) X(hugetlb) X(tagstale) X(taglast) X(tagmisuse) \
    X(uafhit) X(profsample) X(profjit) X(proffile) X(proffull) X(migrate) X(midverify) X(midreport) X(profname) X(spin) X(lazyinit) X(destroy) X(overlapcopy) X(strbound) \
    X(uffdread) X(uffdwrite) X(canary_small) X(canary_big) X(madvfree) X(protblock) X(midprotect) X(exhaust) X(pair)
enum {
#define X(n) P_##n,
    PROBES(X)
#undef X
        P_COUNT
};
#define PROBE(n) (res->probe[P_##n]++)

/* ---------------------------------------------------------------- kernel */
typedef struct {
    u64 start, end;
    u32 id, prot;
    u8 huge, big;
    u32 cpu;
    int op; /* operation during which it was created */
} vma_t;
extern vma_t *vma;
extern int nvma;
int vma_find(u64 a); /* index of the vma holding a, or -1 */
void kern_init(void);
void kern_guard_check(const char *when);
u64 kern_mapped(void);
extern u32 kern_next_id;
extern u64 kern_hint_log[4096];
extern u32 kern_nhints;
extern u64 n_getrandom;
extern u64 last_diag_faultseq;
extern char last_diag[512];
extern int any_fault_fired;    /* a non-benign fault fired */
extern int benign_fault_fired;
extern char profile_out[524288];
extern u32 profile_len;
long sim_knob(int which, long shipped);

/* ---------------------------------------------------------------- scheduler */
typedef struct fiber {
    void *sp;
    u8 *stack;
    u8 *tls;
    int id;
    int err;
    int in_op;       /* index of the op being executed, -1 if none */
    int next_op;     /* index of the next op of this thread, -1 if none */
    int finished;
    void *blocked;   /* mutex */
    int spinning;
    u32 stall;
    u64 sync_idx, acc_since;
    int prei;
    u64 steps;
    u64 step_limit;
    int big_ctx, past_alloc;
    u32 cpu;
    int nopreempt;
    int pending_exit;
    int no_entropy;  /* the last draw of entropy in this call was refused */
} fiber_t;
extern fiber_t *cur;
extern fiber_t fibers[MAXTHREADS + 2]; /* threads, the main context, the allocator's own helper thread */
extern int quiescent_now; /* only one thread has a call in progress */
void sched_init(void);
void sched_run_all(void);
void sched_point_sync(void);
void sched_note_progress(void);
int locks_held(void);
int uffd_fault(u64 addr, int write); /* true: the access may be tried again */
int sched_helper_start(void *(*fn)(void *), void *arg);
void sched_helper_wait(int (*ready)(void));
void sched_fault_wait(void *token, int (*pending)(fiber_t *));
void sched_fault_wake(void *token);
void tls_reset(fiber_t *f);
void unlocked_wait(void);
extern long acc_budget;
void preempt_here(u32 d);
void sched_open_window(int k);
void sched_window(int k);
extern u64 noread_lo, noread_len, noread_step, noread_ok; /* memory of the plan's strings and the inaccessible pages behind them */
int sched_all_allocating(void);
int sched_window_waiters(void);
extern u64 kern_named_at, kern_named_len;
extern int fault_op, fault_phase, run_phase;
int others_in_call(void);

/* ---------------------------------------------------------------- operations and model */
#define OPS(X) \
    X(nop) X(malloc) X(calloc) X(realloc) X(reallocarray) X(strdup) X(strndup) X(free) X(chunksz) X(check) X(write) \
    X(znew) X(zalloc) X(zdestroy) X(zfill) X(verify) X(verifyz) X(flush) X(leaks) X(zleaks) X(usage) X(bulk) X(bulkfree) X(churn) \
    X(tend) X(protect) X(barrier) X(null) X(impossible) X(zero) X(misuse) X(corrupt) X(memalign) X(hookalloc) X(cxxnew) \
    X(memops) X(memover) X(tagcheck) X(tagstale) X(uafplant) X(uafderef) X(traces) X(treset) X(callpath) X(cpu) X(initagain) \
    X(observe) X(footmark) X(footcheck) X(uread) X(samplecorrupt) X(guardcheck) X(destroy) X(edraw) X(eswitch) X(report)
enum {
#define X(n) O_##n,
    OPS(X)
#undef X
        O_COUNT
};
extern const char *op_names[];
void op_exec(int idx);
void model_init(void);
void model_startup(void);
void model_final(void);
void model_unmap(u64 start, u64 end);
void model_noaccess(u64 start, u64 end, int prot);
void model_discard(u64 start, u64 end);
void model_cpu_visit(void);
int model_expect_abort(void);
int model_expect_segv(void);
extern int heap_destroyed;

/* features of the build variant */
typedef struct {
    int tagging, sanitize, prot_big, big_guard, meta_guard, sane, uaf, strong, abort_null, threads, spin, cpu_pin, prof, memcpy_s, memset_s, cpp, small_startup, perm_realloc, leak, dtor_cleanup, sighandler, ctor, no_canary, zero_page, uninit, sample_max;
} feat_t;
extern feat_t feat;

void plan_gen(plan_t *p, const char *profile, u64 seed);
void plan_print(plan_t *p, FILE *f);
int plan_parse(plan_t *p, FILE *f);
