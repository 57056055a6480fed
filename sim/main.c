/* Driver: one plan = one forked, deterministic run. */
#include "sim.h"
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>

plan_t *plan;
result_t *res;
int verbose;
int run_phase;
static int to_stdout;
sigjmp_buf *model_guard; /* set while the model touches memory that may trap */
static void *(*dummy)(void);
extern void *kern_segv_handler(void);

const char *op_names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};
const char *probe_names[] = {
#define X(n) #n,
    PROBES(X)
#undef X
};
static const char *known_names[] = {"align", "zone-cycle"};
static const char *fault_names[] = {"mmap", "munmap", "mprotect", "madvise", "mlock", "getrandom", "sigaction", "prctl", "open", "hugetlb", "shortrandom", "userfaultfd"};

void trace(const char *fmt, ...) {
    if(!verbose)
        return;
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if(n > 0 && n < (int) sizeof b) {
        if(to_stdout)
            (void) !write(1, b, n);
    }
}
void rec(int cat, u64 v) {
    if(res->rec_n < 2048) {
        res->rcat[res->rec_n] = (u8) cat;
        res->rec[res->rec_n++] = v;
    }
}
void known(int which, const char *fmt, ...) {
    char b[300];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if(!res->known[which]++)
        snprintf(res->known_msg[which], sizeof res->known_msg[which], "%s", b);
    trace("  [finding %d] %s\n", which, b);
}
int probing, recording;

static void die(int status) {
    res->status = status;
    _exit(0);
}
void sim_violation(const char *kind, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(res->msg, sizeof res->msg, fmt, ap);
    va_end(ap);
    snprintf(res->kind, sizeof res->kind, "%s", kind);
    if(verbose && to_stdout)
        trace("  ** %s: %s\n", res->kind, res->msg);
    res->mapped_peak = res->mapped_peak;
    for(const char *k = kind; *k; k++)
        hash_in(*k);
    die(R_VIOLATION);
    for(;;) ;
}
/* kinds after which a run may go on: the model stays in step with the heap */
static const char soft_kinds[] =
    " usage leak-report footprint zone-leak big-cache big-waste big-retire big-leak retire shared-secret canary-byte no-decoy guard profile scrub tag "
    "destroy-leak zone-count zone-size strong-size size sample cpu protect canary-missed lock isolation calloc strdup realloc content early-reissue "
    "perm-reissue perm-big perm-neighbour zero null-arg errno cxx memcpy uaf align memalign zone-capacity root-protect reinit ";
static int has_word(const char *list, const char *w) {
    size_t n = strlen(w);
    for(const char *p = list; (p = strstr(p, w)); p += n)
        if((p == list || p[-1] == ' ') && (p[n] == ' ' || p[n] == 0))
            return 1;
    return 0;
}
int sim_foreign(const char *kind) {
    const char *own = getenv("SIM_KINDS");
    return own && !has_word(own, kind) && has_word(soft_kinds, kind);
}
void sim_note(const char *kind, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if(!res->notes++) {
        vsnprintf(res->note_msg, sizeof res->note_msg, fmt, ap);
        snprintf(res->note_kind, sizeof res->note_kind, "%s", kind);
        trace("  (not of this property) %s: %s\n", kind, res->note_msg);
    }
    va_end(ap);
    for(const char *k = kind; *k; k++)
        hash_in(*k);
}
void sim_internal(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(res->msg, sizeof res->msg, fmt, ap);
    va_end(ap);
    snprintf(res->kind, sizeof res->kind, "internal");
    die(R_INTERNAL);
    for(;;) ;
}
void sim_finish(int ended_by) {
    res->ended_by = ended_by;
    die(R_FINE);
    for(;;) ;
}

/* Deliberate misuse would end the run, so it happens in a forked copy of it: the copy must end in an abort of the
 * allocator (or, if may_return, may come back); the original run goes on untouched. */
const char *expect_diag;
int probe_run(void (*fn)(void *), void *arg, int may_return, const char *what) {
    static result_t *pres;
    if(!pres)
        pres = mmap(NULL, sizeof *pres, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memcpy(pres, res, sizeof *res);
    pres->status = R_NONE;
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
        res = pres;
        probing = 1;
        cur->nopreempt = 1;
        trace("    [probe] %s\n", what);
        fn(arg);
        if(may_return)
            sim_finish(3);
        sim_violation("missed", "%s was not detected", what);
    }
    if(pid < 0)
        sim_internal("fork failed");
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if(pres->status == R_NONE) {
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU)
            sim_violation("hang", "%s used 60 s of processor time without finishing", what);
        sim_internal("probe '%s' ended with status %#x", what, st);
    }
    memcpy(res, pres, sizeof *res);
    if(pres->status != R_FINE)
        _exit(0);
    res->status = R_NONE;
    res->ended_by = 0;
    return 1;
}

/* the allocator calls abort() */
__attribute__((noreturn)) void sim_abort(void) {
    if(model_expect_abort()) {
        if(strncmp(last_diag, "[ABORTING]", 10) != 0)
            sim_violation("diagnostic", "the allocator aborted without its own diagnostic");
        if(expect_diag && *expect_diag == '!') {
            if(strstr(last_diag, expect_diag + 1))
                sim_violation("diagnostic", "the allocator aborted with \"%s\", which is not what happened", last_diag);
        } else if(expect_diag && !strstr(last_diag, expect_diag))
            sim_violation("diagnostic", "the allocator aborted with \"%s\", which does not say \"%s\"", last_diag, expect_diag);
        PROBE(expabort);
        hash_in(0xabcd);
        sim_finish(1);
    }
    if(any_fault_fired && fault_phase == run_phase && (run_phase != 1 || fault_op == cur->in_op)) {
        if(strncmp(last_diag, "[ABORTING]", 10) != 0)
            sim_violation("diagnostic", "the allocator aborted after a failed system call without its own diagnostic");
        PROBE(failstop);
        hash_in(0xabce);
        sim_finish(2);
    }
    char d[400];
    snprintf(d, sizeof d, "%s", last_diag);
    sim_violation("abort", "unexpected abort in operation %s: %s", cur && cur->in_op >= 0 ? op_names[plan->op[cur->in_op].code] : run_phase == 0 ? "(startup)" : "(final)", d);
}

static void on_signal(int sig, siginfo_t *si, void *uc) {
    if(feat.uninit && sig == SIGSEGV && uffd_fault((u64) si->si_addr, (int) (((ucontext_t *) uc)->uc_mcontext.gregs[REG_ERR] >> 1 & 1)))
        return;
    if(model_guard) {
        sigjmp_buf *g = model_guard;
        model_guard = NULL;
        siglongjmp(*g, 1);
    }
    if(sig == SIGSEGV && kern_segv_handler() && model_expect_segv() != 2) {
        void (*h)(int, siginfo_t *, void *) = kern_segv_handler();
        h(sig, si, uc);
    }
    if(sig == SIGSEGV && model_expect_segv()) {
        hash_in(0x5e6);
        PROBE(expabort);
        sim_finish(1);
    }
    u64 a = (u64) si->si_addr;
    int i = vma_find(a);
    char where[120] = "not mapped by the allocator";
    if(i >= 0)
        snprintf(where, sizeof where, "offset %lld in mapping %u of %lld bytes, protection %u", (long long) (a - vma[i].start), vma[i].id,
                 (long long) (vma[i].end - vma[i].start), vma[i].prot);
    sim_violation(sig == SIGSEGV || sig == SIGBUS ? "segv" : "signal", "signal %d at %#llx (%s) in operation %s", sig, (unsigned long long) a, where,
                  cur && cur->in_op >= 0 ? op_names[plan->op[cur->in_op].code] : run_phase == 0 ? "(startup)" : "(final)");
}

static __attribute__((noinline)) void deep(int n, void (*f)(void)) { /* a real chain of frames for the profiler to walk */
    if(n > 0)
        deep(n - 1, f);
    else
        f();
    __asm__ volatile("");
}
static void child(void) {
    struct rlimit rl = {60, 61};
    setrlimit(RLIMIT_CPU, &rl);
    static u8 alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    /* page faults served by the allocator's helper thread are waited for in the handler, on the stack of the thread */
    sa.sa_flags = SA_SIGINFO | SA_NODEFER | (feat.uninit ? 0 : SA_ONSTACK);
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
    sigaction(SIGTRAP, &sa, NULL);
    kern_init();
    sched_init();
    model_init();
    run_phase = 0;
    deep(12, model_startup);
    run_phase = 1;
    sched_run_all();
    run_phase = 2;
    deep(12, model_final);
    sim_finish(0);
}

/* run the current plan in a child; the result is in *res */
static void run_once(void) {
    memset(res, 0, sizeof *res);
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
        child();
        _exit(3);
    }
    if(pid < 0) {
        res->status = R_INTERNAL;
        snprintf(res->msg, sizeof res->msg, "fork failed");
        return;
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if(res->status == R_NONE) {
        if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU)) {
            res->status = R_VIOLATION;
            snprintf(res->kind, sizeof res->kind, "hang");
            snprintf(res->msg, sizeof res->msg, "the run used 60 s of processor time without finishing");
        } else {
            res->status = R_INTERNAL;
            snprintf(res->kind, sizeof res->kind, "internal");
            snprintf(res->msg, sizeof res->msg, "run ended with status %#x", st);
        }
    }
}

static const char *rec_names[] = {"", "hand-out position", "check secret", "zone handle", "tag", "placement hint", "large-block check value"};
/* a paired plan runs twice with different entropy: nothing an attacker must guess may come out the same */
static void run_plan(void) {
    if(!(plan->flags & RF_PAIR)) {
        run_once();
        return;
    }
    static result_t a;
    u64 keep = plan->entropy2;
    run_once();
    if(res->status != R_FINE)
        return;
    a = *res;
    plan->entropy2 = mix64(keep + 1);
    run_once();
    plan->entropy2 = keep;
    if(res->status != R_FINE)
        return;
    for(int c = 1; c <= 6; c++) {
        u64 x[2048], y[2048];
        u32 nx = 0, ny = 0, same = 0;
        for(u64 i = 0; i < a.rec_n; i++)
            if(a.rcat[i] == c)
                x[nx++] = a.rec[i];
        for(u64 i = 0; i < res->rec_n; i++)
            if(res->rcat[i] == c)
                y[ny++] = res->rec[i];
        u32 n = nx < ny ? nx : ny;
        for(u32 i = 0; i < n; i++)
            same += x[i] == y[i];
        int bad = c == 1 ? n >= 24 && same == n : c == 4 ? n >= 8 && same * 2 > n : same > 0;
        if(n)
            res->probe[P_pair]++;
        if(bad) {
            res->status = R_VIOLATION;
            snprintf(res->kind, sizeof res->kind, "predictable");
            snprintf(res->msg, sizeof res->msg, "two runs that differ only in their entropy agree in %u of %u values of the kind '%s'", same, n, rec_names[c]);
            return;
        }
    }
    res->hash = mix64(res->hash ^ a.hash);
    res->ileave = mix64(res->ileave ^ a.ileave);
    for(int i = 0; i < NPROBE; i++)
        res->probe[i] += a.probe[i];
}

static void print_result(FILE *f) {
    fprintf(f, "status=%s kind=%s hash=%016llx ileave=%016llx ops=%llu accesses=%llu switches=%llu\n",
            res->status == R_FINE ? "ok" : res->status == R_VIOLATION ? "violation" : "internal", res->kind[0] ? res->kind : "-",
            (unsigned long long) res->hash, (unsigned long long) res->ileave, (unsigned long long) res->ops_done,
            (unsigned long long) res->accesses, (unsigned long long) res->switches);
    if(res->msg[0])
        fprintf(f, "msg=%s\n", res->msg);
}

/* ---------------------------------------------------------------- shrinking */
static char want_kind[32];
static int shrink_runs;
static int still_fails(void) {
    shrink_runs++;
    run_plan();
    return res->status == R_VIOLATION && strcmp(res->kind, want_kind) == 0;
}
static void shrink(int budget) {
    static plan_t best;
    best = *plan;
    for(int round = 0; round < 4; round++) {
        u32 before = best.nops * 1000;
        for(u32 k = 0; k < best.nops; k++)
            before += best.op[k].npre;
        for(u32 len = best.nops / 2 ? best.nops / 2 : 1; len >= 1; len /= 2) {
            for(u32 at = 0; at < best.nops && shrink_runs < budget;) {
                *plan = best;
                u32 n = len < plan->nops - at ? len : plan->nops - at;
                memmove(plan->op + at, plan->op + at + n, sizeof(op_t) * (plan->nops - at - n));
                plan->nops -= n;
                if(still_fails())
                    best = *plan;
                else
                    at += len;
            }
            if(len == 1)
                break;
        }
        for(u32 i = 0; i < best.nops && shrink_runs < budget; i++)
            for(int k = best.op[i].npre - 1; k >= 0; k--) {
                *plan = best;
                op_t *o = &plan->op[i];
                memmove(o->pre + k, o->pre + k + 1, sizeof(pre_t) * (o->npre - k - 1));
                o->npre--;
                if(still_fails())
                    best = *plan;
            }
        for(int i = (int) best.nfaults - 1; i >= 0 && shrink_runs < budget; i--) {
            *plan = best;
            memmove(plan->fault + i, plan->fault + i + 1, sizeof(fault_t) * (plan->nfaults - i - 1));
            plan->nfaults--;
            if(still_fails())
                best = *plan;
        }
        u32 after = best.nops * 1000;
        for(u32 k = 0; k < best.nops; k++)
            after += best.op[k].npre;
        if(after == before || shrink_runs >= budget)
            break;
    }
    *plan = best;
    run_plan();
}

static void save_plan(const char *path, const char *prop) {
    char tmp[600];
    snprintf(tmp, sizeof tmp, "%s.tmp", path);
    FILE *f = fopen(tmp, "w");
    if(!f)
        return;
    fprintf(f, "# property %s violation %s: %s\n# hash %016llx\n", prop, res->kind, res->msg, (unsigned long long) res->hash);
    plan_print(plan, f);
    fclose(f);
    rename(tmp, path);
}

static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

int main(int argc, char **argv) {
    if(!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
        if(personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("SIM_NOREEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    plan = mmap(NULL, sizeof *plan, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    res = mmap(NULL, sizeof *res, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    (void) dummy;
    if(argc >= 4 && !strcmp(argv[1], "gen")) {
        plan_gen(plan, argv[2], strtoull(argv[3], 0, 0));
        plan_print(plan, stdout);
        return 0;
    }
    if(argc >= 3 && !strcmp(argv[1], "run")) {
        FILE *f = fopen(argv[2], "r");
        if(!f || !plan_parse(plan, f)) {
            fprintf(stderr, "cannot read plan %s\n", argv[2]);
            return 2;
        }
        verbose = argc > 3 ? atoi(argv[3]) : 0;
        to_stdout = 1;
        run_plan();
        print_result(stdout);
        if(argc > 4)
            for(u64 i = 0; i < res->rec_n; i++)
                printf("rec %016llx\n", (unsigned long long) res->rec[i]);
        return res->status == R_FINE ? 0 : res->status == R_VIOLATION ? 1 : 2;
    }
    if(argc >= 4 && !strcmp(argv[1], "seed")) { /* generate and run one seed */
        plan_gen(plan, argv[2], strtoull(argv[3], 0, 0));
        verbose = argc > 4 ? atoi(argv[4]) : 0;
        to_stdout = 1;
        run_plan();
        print_result(stdout);
        for(int p = 0; p < P_COUNT; p++)
            if(res->probe[p])
                printf("%s=%llu ", probe_names[p], (unsigned long long) res->probe[p]);
        printf("\n");
        return res->status == R_FINE ? 0 : res->status == R_VIOLATION ? 1 : 2;
    }
    if(argc >= 5 && !strcmp(argv[1], "shrink")) { /* shrink IN OUT PROP [budget] */
        FILE *f = fopen(argv[2], "r");
        if(!f || !plan_parse(plan, f))
            return 2;
        fclose(f);
        run_plan();
        if(res->status != R_VIOLATION)
            return 3;
        snprintf(want_kind, sizeof want_kind, "%s", res->kind);
        shrink(argc > 5 ? atoi(argv[5]) : 600);
        save_plan(argv[3], argv[4]);
        print_result(stdout);
        return 1;
    }
    if(argc >= 2 && !strcmp(argv[1], "probes")) {
        for(int i = 0; i < P_COUNT; i++)
            printf("%s\n", probe_names[i]);
        printf("--\n");
        for(int i = 0; i < O_COUNT; i++)
            printf("%s\n", op_names[i]);
        return 0;
    }
    if(argc >= 8 && !strcmp(argv[1], "batch")) {
        /* batch PROFILE FIRST COUNT STEP MAXSECONDS OUTPREFIX [maxviol] : seeds FIRST, FIRST+STEP, ... */
        const char *prof = argv[2];
        u64 first = strtoull(argv[3], 0, 0), count = strtoull(argv[4], 0, 0), step = strtoull(argv[5], 0, 0);
        double limit = atof(argv[6]), t0 = now();
        const char *out = argv[7];
        int maxviol = argc > 8 ? atoi(argv[8]) : 3;
        char hp[600];
        snprintf(hp, sizeof hp, "%s.hash", out);
        FILE *hf = fopen(hp, "wb");
        u64 tot[8] = {0}, faults[F_KINDS] = {0}, probes[NPROBE] = {0}, opsn = 0, acc = 0, sw = 0, pre = 0, syncs = 0, lw = 0;
        u64 runs = 0, internal = 0, others = 0, viol = 0, faulted = 0, peak = 0, known_n[8] = {0};
        static char known_first[8][320];
        for(u64 k = 0; k < count; k++) {
            if(now() - t0 > limit)
                break;
            u64 seed = first + k * step;
            plan_gen(plan, prof, seed);
            run_plan();
            runs++;
            u64 hv[4] = {res->hash, res->ileave, 0, 0};
            for(u32 i = 0; i < plan->nops; i++)
                if(plan->op[i].code < 64)
                    hv[3] |= 1ULL << plan->op[i].code;
            for(int i = 0; i < P_COUNT && i < 64; i++)
                if(res->probe[i])
                    hv[2] |= 1ULL << i;
            if(hf)
                fwrite(hv, 8, 4, hf);
            if(res->status == R_INTERNAL) {
                internal++;
                printf("INTERNAL seed=%llu %s\n", (unsigned long long) seed, res->msg);
                if(internal > 5)
                    break;
                continue;
            }
            tot[res->ended_by & 3]++;
            u64 fs = 0;
            for(int i = 0; i < F_KINDS; i++) {
                faults[i] += res->faults[i];
                fs += res->faults[i];
            }
            faulted += fs != 0;
            for(int i = 0; i < NPROBE; i++)
                probes[i] += res->probe[i];
            opsn += res->ops_done;
            acc += res->accesses;
            sw += res->switches;
            pre += res->preempts_hit;
            syncs += res->syncs;
            lw += res->lockwaits;
            for(int i = 0; i < KN_COUNT; i++) {
                if(res->known[i] && !known_n[i])
                    snprintf(known_first[i], sizeof known_first[i], "seed %llu: %s", (unsigned long long) seed, res->known_msg[i]);
                known_n[i] += res->known[i];
            }
            if(res->mapped_peak > peak)
                peak = res->mapped_peak;
            const char *own = getenv("SIM_KINDS");
            if(res->notes && others++ < 8)
                printf("NOTE seed=%llu kind=%s msg=%s\n", (unsigned long long) seed, res->note_kind, res->note_msg);
            if(res->status == R_VIOLATION && own && !has_word(own, res->kind)) {
                if(others++ < 8)
                    printf("NOTE seed=%llu kind=%s msg=%s\n", (unsigned long long) seed, res->kind, res->msg);
            } else if(res->status == R_VIOLATION) {
                viol++;
                char pp[600];
                snprintf(pp, sizeof pp, "%s.%llu.plan", out, (unsigned long long) seed);
                save_plan(pp, prof);
                printf("VIOL seed=%llu kind=%s hash=%016llx file=%s msg=%s\n", (unsigned long long) seed, res->kind,
                       (unsigned long long) res->hash, pp, res->msg);
                fflush(stdout);
                if((int) viol >= maxviol)
                    break;
            }
        }
        if(hf)
            fclose(hf);
        for(int i = 0; i < KN_COUNT; i++)
            if(known_n[i])
                printf("KNOWN %s %llu %s\n", known_names[i], (unsigned long long) known_n[i], known_first[i]);
        printf("STATS {\"runs\":%llu,\"internal\":%llu,\"violations\":%llu,\"ops\":%llu,\"accesses\":%llu,\"switches\":%llu,\"preemptions\":%llu,"
               "\"sync_points\":%llu,\"lock_waits\":%llu,\"faulted_runs\":%llu,\"peak_mapped\":%llu,\"ended\":{\"normal\":%llu,\"expected_abort\":%llu,\"fail_stop\":%llu},\"wall\":%.3f,",
               (unsigned long long) runs, (unsigned long long) internal, (unsigned long long) viol, (unsigned long long) opsn,
               (unsigned long long) acc, (unsigned long long) sw, (unsigned long long) pre, (unsigned long long) syncs, (unsigned long long) lw,
               (unsigned long long) faulted, (unsigned long long) peak, (unsigned long long) tot[0], (unsigned long long) tot[1], (unsigned long long) tot[2], now() - t0);
        printf("\"faults\":{");
        for(int i = 0; i < F_KINDS; i++)
            printf("%s\"%s\":%llu", i ? "," : "", fault_names[i], (unsigned long long) faults[i]);
        printf("},\"probes\":{");
        for(int i = 0; i < P_COUNT; i++)
            printf("%s\"%s\":%llu", i ? "," : "", probe_names[i], (unsigned long long) probes[i]);
        printf("}}\n");
        return viol ? 1 : internal ? 2 : 0;
    }
    fprintf(stderr, "usage: sim gen PROFILE SEED | run PLAN [verbose [rec]] | seed PROFILE SEED | shrink IN OUT PROP | batch PROFILE FIRST COUNT STEP SECONDS OUT\n");
    return 2;
}
