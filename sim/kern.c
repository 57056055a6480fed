/* Simulated kernel: page table, placement policy, lazy discarding, entropy, injected failures.
 * Memory itself is real (mapped at the addresses the policy picks), so protections trap for real. */
#include "sim.h"
#include "isoalloc_sim_knobs.h"
#include <dlfcn.h>
#include <sys/prctl.h>
#include <sys/resource.h>

vma_t *vma;
int nvma;
static int capvma;
u32 kern_next_id = 1;
u64 kern_hint_log[4096];
u32 kern_nhints;
u64 n_getrandom;
char last_diag[512];
int any_fault_fired, benign_fault_fired;
char profile_out[524288];
u32 profile_len;
int fault_op, fault_phase;
static u64 call_count[F_KINDS];
static u64 bump;
static u64 mapped;
static void uf_release(u64 s, u64 e);
static rng_t lazy_rng;
#define ARENA_LO 0x100000000ULL
#define ARENA_HI 0x400000000000ULL
#define COMPACT_BASE 0x120000000000ULL

static const char *fnames[] = {"mmap", "munmap", "mprotect", "madvise", "mlock", "getrandom", "sigaction", "prctl", "open", "hugetlb", "shortrandom", "userfaultfd"};

void kern_init(void) {
    capvma = 4096;
    vma = malloc(sizeof(vma_t) * capvma);
    nvma = 0;
    bump = COMPACT_BASE + (plan->place_seed % 4096) * PAGE;
    lazy_rng.s = plan->place_seed ^ 0x1234;
}

long sim_knob(int which, long shipped) {
    long v = plan->knob[which];
    return v ? v : shipped;
}

/* index of first vma with end > a */
static int vma_lower(u64 a) {
    int lo = 0, hi = nvma;
    while(lo < hi) {
        int m = (lo + hi) / 2;
        if(vma[m].end > a)
            hi = m;
        else
            lo = m + 1;
    }
    return lo;
}
int vma_find(u64 a) {
    int i = vma_lower(a);
    return (i < nvma && vma[i].start <= a) ? i : -1;
}
static void vma_insert(int at, vma_t v) {
    if(nvma == capvma) {
        capvma *= 2;
        vma = realloc(vma, sizeof(vma_t) * capvma);
    }
    memmove(vma + at + 1, vma + at, sizeof(vma_t) * (nvma - at));
    vma[at] = v;
    nvma++;
}
static void vma_delete(int at) {
    memmove(vma + at, vma + at + 1, sizeof(vma_t) * (nvma - at - 1));
    nvma--;
}
static void vma_split(u64 a) {
    int i = vma_find(a);
    if(i < 0 || vma[i].start == a)
        return;
    vma_t v = vma[i];
    vma[i].end = a;
    v.start = a;
    vma_insert(i + 1, v);
}
static int range_free(u64 s, u64 e) {
    int i = vma_lower(s);
    return !(i < nvma && vma[i].start < e);
}
u64 kern_mapped(void) { return mapped; }

/* a fault of this kind at this (its n-th) call? */
static int fault(int kind) {
    u64 n = ++call_count[kind];
    for(u32 i = 0; i < plan->nfaults; i++) {
        fault_t *f = &plan->fault[i];
        if((int) f->kind == kind && n >= f->nth && n < (u64) f->nth + f->count) {
            res->faults[kind]++;
            int benign = kind == F_MADVISE || kind == F_MLOCK || kind == F_SIGACTION || kind == F_PRCTL || kind == F_HUGETLB || kind == F_MUNMAP;
            if(benign)
                benign_fault_fired = 1;
            else {
                any_fault_fired = 1;
                fault_op = cur ? cur->in_op : -1;
                fault_phase = run_phase;
            }
            trace("  [fault] %s call #%llu fails with errno %d\n", fnames[kind], (unsigned long long) n, f->err);
            hash_in(kind * 7 + 3);
            return f->err ? f->err : ENOMEM;
        }
    }
    return 0;
}

void *sim_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    sched_point_sync();
    u64 hint = (u64) addr;
    if(kern_nhints < 4096)
        kern_hint_log[kern_nhints++] = hint;
    if(recording && hint)
        rec(5, hint);
    if(len == 0 || (flags & MAP_FIXED)) {
        errno = EINVAL;
        return MAP_FAILED;
    }
    if((flags & MAP_HUGETLB)) {
        int e = fault(F_HUGETLB);
        if(e || !plan->huge) { /* no huge pages reserved, as on a default system */
            res->faults[F_HUGETLB] += e == 0;
            PROBE(hugetlb);
            errno = ENOMEM;
            return MAP_FAILED;
        }
        len = (len + (2 << 20) - 1) & ~((2ULL << 20) - 1);
    }
    len = (len + PAGE - 1) & ~(PAGE - 1);
    int e = fault(F_MMAP);
    if(e) {
        errno = e;
        return MAP_FAILED;
    }
    u64 p = 0, al = (flags & MAP_HUGETLB) ? (2ULL << 20) : PAGE;
    for(int tries = 0;; tries++) {
        if(tries > 64)
            sim_internal("no place for a mapping of %zu bytes", len);
        p = 0;
        if(plan->place == PLACE_HINT && tries == 0) {
            p = hint & ~(al - 1);
            if(p < ARENA_LO || p + len > ARENA_HI || !range_free(p, p + len))
                p = 0;
        }
        if(!p && plan->place == PLACE_REUSE && tries == 0) { /* lowest hole that fits */
            u64 a = COMPACT_BASE;
            for(int i = vma_lower(a); i < nvma; i++) {
                u64 s = (a + al - 1) & ~(al - 1);
                if(vma[i].start >= s + len) {
                    p = s;
                    break;
                }
                a = vma[i].end;
            }
            if(!p) {
                u64 s = (a + al - 1) & ~(al - 1);
                if(s + len <= bump)
                    p = s;
            }
        }
        if(!p) {
            bump = (bump + al - 1) & ~(al - 1);
            p = bump;
            bump += len;
            if(!range_free(p, p + len))
                continue;
        }
        void *r = mmap((void *) p, len, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(r == (void *) p)
            break;
        if(r != MAP_FAILED)
            munmap(r, len);
        if(errno == ENOMEM)
            sim_internal("real mmap failed: %d (%d vmas)", errno, nvma);
    }
    vma_t v = {p, p + len, kern_next_id++, (u32) prot, (flags & MAP_HUGETLB) != 0, cur && len != ZONE_BYTES + 2 * PAGE ? cur->big_ctx : 0, cur ? cur->cpu : 0, cur ? cur->in_op : -1};
    vma_insert(vma_lower(p), v);
    mapped += len;
    if(mapped > res->mapped_peak)
        res->mapped_peak = mapped;
    hash_in(p);
    hash_in(len);
    if(verbose > 1)
        trace("    mmap %llx +%zx prot %d\n", (unsigned long long) p, len, prot);
    return (void *) p;
}

int sim_munmap(void *addr, size_t len) {
    sched_point_sync();
    u64 a = (u64) addr, e;
    if((a & (PAGE - 1)) || len == 0 || a + len < a) {
        errno = EINVAL;
        return -1;
    }
    e = (a + len + PAGE - 1) & ~(PAGE - 1);
    int er = fault(F_MUNMAP);
    if(er) {
        errno = er;
        return -1;
    }
    for(int i = vma_lower(a); i < nvma && vma[i].start < e; i++)
        if(vma[i].huge && ((vma[i].start < a && (a & ((2 << 20) - 1))) || (vma[i].end > e && (e & ((2 << 20) - 1))))) {
            errno = EINVAL;
            return -1;
        }
    model_unmap(a, e);
    uf_release(a, e);
    vma_split(a);
    vma_split(e);
    int i = vma_lower(a);
    while(i < nvma && vma[i].start < e) {
        mapped -= vma[i].end - vma[i].start;
        munmap((void *) vma[i].start, vma[i].end - vma[i].start);
        vma_delete(i);
    }
    hash_in(a ^ 0x55);
    if(verbose > 1)
        trace("    munmap %llx +%zx\n", (unsigned long long) a, len);
    return 0;
}

int sim_mprotect(void *addr, size_t len, int prot) {
    sched_point_sync();
    u64 a = (u64) addr, e = (a + len + PAGE - 1) & ~(PAGE - 1);
    if(a & (PAGE - 1)) {
        errno = EINVAL;
        return -1;
    }
    int er = fault(F_MPROTECT);
    if(er) {
        errno = er;
        return -1;
    }
    u64 c = a;
    while(c < e) { /* whole range must be mapped */
        int i = vma_find(c);
        if(i < 0) {
            errno = ENOMEM;
            return -1;
        }
        if(vma[i].huge && ((a & ((2 << 20) - 1)) || (e & ((2 << 20) - 1)))) {
            errno = EINVAL;
            return -1;
        }
        c = vma[i].end;
    }
    model_noaccess(a, e, prot);
    vma_split(a);
    vma_split(e);
    for(int i = vma_lower(a); i < nvma && vma[i].start < e; i++)
        vma[i].prot = (u32) prot;
    if(mprotect((void *) a, e - a, prot))
        sim_internal("real mprotect failed: %d", errno);
    hash_in(a ^ prot);
    if(verbose > 1)
        trace("    mprotect %llx +%zx prot %d\n", (unsigned long long) a, len, prot);
    return 0;
}

int sim_madvise(void *addr, size_t len, int adv) {
    sched_point_sync();
    u64 a = (u64) addr, e = (a + len + PAGE - 1) & ~(PAGE - 1);
    if(a & (PAGE - 1)) {
        errno = EINVAL;
        return -1;
    }
    int er = fault(F_MADVISE);
    if(er) {
        errno = er;
        return -1;
    }
    if(adv != MADV_FREE && adv != MADV_DONTNEED)
        return 0;
    int missing = 0;
    model_discard(a, e);
    for(u64 c = a; c < e;) {
        int i = vma_lower(c);
        if(i >= nvma || vma[i].start >= e) {
            missing = 1;
            break;
        }
        if(vma[i].start > c)
            missing = 1;
        u64 s = vma[i].start > c ? vma[i].start : c, t = vma[i].end < e ? vma[i].end : e;
        if(vma[i].huge && adv == MADV_FREE) {
            errno = EINVAL;
            return -1;
        }
        PROBE(madvfree);
        if(adv == MADV_DONTNEED || plan->lazy == 0) {
            madvise((void *) s, t - s, MADV_DONTNEED);
        } else if(plan->lazy == 2) { /* some pages are reclaimed, some keep their contents */
            u64 n = (t - s) / PAGE;
            if(n <= 2048) {
                for(u64 k = 0; k < n; k++)
                    if(rnd(&lazy_rng) & 1)
                        madvise((void *) (s + k * PAGE), PAGE, MADV_DONTNEED);
            } else {
                u64 h = (rnd(&lazy_rng) % n) * PAGE;
                if(rnd(&lazy_rng) & 1)
                    madvise((void *) s, h, MADV_DONTNEED);
                else
                    madvise((void *) (s + h), t - s - h, MADV_DONTNEED);
            }
        }
        c = t;
    }
    if(missing) {
        errno = ENOMEM;
        return -1;
    }
    return 0;
}

int sim_mlock(const void *p, size_t n) {
    sched_point_sync();
    int e = fault(F_MLOCK);
    if(e) {
        errno = e;
        return -1;
    }
    return 0;
}
int sim_munlock(const void *p, size_t n) { return 0; }

ssize_t sim_getrandom(void *buf, size_t n, unsigned flags) {
    sched_point_sync();
    int e = fault(F_GETRANDOM);
    if(e) {
        if(cur)
            cur->no_entropy = 1;
        errno = e;
        return -1;
    }
    if(fault(F_SHORTRANDOM)) {
        if(cur)
            cur->no_entropy = 1;
        memset(buf, 0, n);
        return n / 2;
    }
    if(cur)
        cur->no_entropy = 0;
    u64 k = n_getrandom++;
    u64 seed = k >= plan->entropy_from ? plan->entropy2 : plan->entropy;
    u8 *b = buf;
    for(size_t i = 0; i < n; i += 8) {
        u64 v = mix64(mix64(seed) + k * 0x9e3779b97f4a7c15ULL + i);
        memcpy(b + i, &v, n - i < 8 ? n - i : 8);
    }
    return n;
}

ssize_t sim_write(int fd, const void *buf, size_t n) {
    if(fd >= 1000) {
        if(profile_len + n < sizeof profile_out) {
            memcpy(profile_out + profile_len, buf, n);
            profile_len += n;
        }
        return n;
    }
    size_t k = n < sizeof last_diag - 1 ? n : sizeof last_diag - 1;
    memcpy(last_diag, buf, k);
    last_diag[k] = 0;
    while(k && (last_diag[k - 1] == '\n'))
        last_diag[--k] = 0;
    if(verbose)
        trace("    [allocator] %s\n", last_diag);
    return n;
}
int sim_open(const char *path, int flags, ...) {
    int e = fault(F_OPEN);
    if(e) {
        errno = e;
        return -1;
    }
    return 1000;
}
int sim_close(int fd) { return 0; }
char *sim_getenv(const char *n) { return plan->seed & 2 ? "profile.data" : NULL; }
int sim_dladdr(const void *a, Dl_info *i) {
    int r = dladdr(a, i);
    if(!r) /* nothing is promised about the result then */
        memset(i, 0xa5, sizeof *i);
    return r;
}
int sim_sched_getcpu(void) {
    sched_point_sync();
    return cur ? (int) cur->cpu : 0;
}
int sim_getcpu(unsigned *c, unsigned *n) {
    if(c)
        *c = cur ? cur->cpu : 0;
    return 0;
}
long sim_sysconf(int n) { return sysconf(n); }
pid_t sim_getpid(void) { return 4242; }
int sim_getrusage(int w, void *r) {
    memset(r, 0, sizeof(struct rusage));
    return 0;
}
static void (*heap_segv)(int, siginfo_t *, void *);
int sim_sigaction(int sig, const struct sigaction *sa, struct sigaction *old) {
    int e = fault(F_SIGACTION);
    if(e) {
        errno = e;
        return -1;
    }
    if(sig == SIGSEGV && sa)
        heap_segv = sa->sa_sigaction;
    return 0;
}
void *kern_segv_handler(void) { return (void *) heap_segv; }
u64 kern_named_at, kern_named_len; /* the last range given a name */
int sim_prctl(int o, unsigned long a, unsigned long b, unsigned long c, unsigned long d) {
    int e = fault(F_PRCTL);
    if(e) {
        errno = e;
        return -1;
    }
    kern_named_at = b;
    kern_named_len = c;
    return 0;
}

/* ---------------------------------------------------------------- userfaultfd: pages whose first access is served by a thread of the allocator */
#if UNINIT_READ_SANITY
#include <linux/userfaultfd.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#define UF_FD 2000
typedef struct { u64 s, e; } ufr_t;
typedef struct { fiber_t *f; u64 addr; int write, pending, queued; } ufe_t;
static ufr_t ufr[4096];
static int nufr, uf_open;
static ufe_t ufe[MAXTHREADS + 2];
static int uf_order[4 * MAXTHREADS], nuf_order;
static int uf_range(u64 a) {
    for(int i = 0; i < nufr; i++)
        if(a >= ufr[i].s && a < ufr[i].e)
            return i;
    return -1;
}
static int uf_pending(fiber_t *f) { return ufe[f->id].pending; }
static int uf_ready(void) { return nuf_order > 0; }
static void uf_take(int at) {
    memmove(uf_order + at, uf_order + at + 1, sizeof(int) * (size_t) (nuf_order - at - 1));
    nuf_order--;
}
/* a range is no longer registered: its pages are ordinary, whoever waits tries again */
static void uf_release(u64 s, u64 e) {
    for(int i = 0; i < nufr; i++)
        if(ufr[i].s >= s && ufr[i].e <= e) {
            if(vma_find(ufr[i].s) >= 0)
                mprotect((void *) ufr[i].s, ufr[i].e - ufr[i].s, vma[vma_find(ufr[i].s)].prot);
            ufr[i--] = ufr[--nufr];
        }
    for(int i = 0; i < MAXTHREADS + 2; i++)
        if(ufe[i].pending && ufe[i].addr >= s && ufe[i].addr < e) {
            ufe[i].pending = 0;
            for(int k = 0; k < nuf_order; k++)
                if(uf_order[k] == i)
                    uf_take(k--);
            ufe[i].f->blocked = NULL;
        }
}
int uffd_fault(u64 a, int write) {
    if(uf_range(a) < 0)
        return 0;
    ufe_t *v = &ufe[cur->id];
    v->f = cur;
    v->addr = a & ~(PAGE - 1);
    v->write = write;
    v->pending = 1;
    uf_order[nuf_order++] = cur->id;
    hash_in(v->addr + (u64) write);
    if(write)
        PROBE(uffdwrite);
    else
        PROBE(uffdread);
    if(verbose > 1)
        trace("    page fault at %llx (%s)\n", (unsigned long long) a, write ? "write" : "read");
    sched_fault_wait(ufe, uf_pending);
    return 1;
}
long sim_syscall(long n, long a, long b, long c, long d) {
    sched_point_sync();
    if(n == SYS_getrandom)
        return sim_getrandom((void *) a, (size_t) b, (unsigned) c);
    if(n != SYS_userfaultfd)
        sim_internal("system call %ld", n);
    int e = fault(F_UFFD);
    if(e) {
        errno = e;
        return -1;
    }
    uf_open = 1;
    return UF_FD;
}
int sim_ioctl(int fd, unsigned long req, void *arg) {
    sched_point_sync();
    if(fd != UF_FD || !uf_open) {
        errno = EBADF;
        return -1;
    }
    int e = fault(F_UFFD);
    if(e) {
        errno = e;
        return -1;
    }
    if(req == UFFDIO_API) {
        struct uffdio_api *api = arg;
        if(api->api != UFFD_API) {
            errno = EINVAL;
            return -1;
        }
        api->features = 0x1ff;
        return 0;
    }
    struct uffdio_range *r = arg;
    if((req != UFFDIO_REGISTER && req != UFFDIO_UNREGISTER) || (r->start & (PAGE - 1)) || (r->len & (PAGE - 1)) || !r->len) {
        errno = EINVAL;
        return -1;
    }
    int i = vma_find(r->start);
    if(i < 0 || vma[i].end < r->start + r->len) {
        errno = i < 0 ? EINVAL : ENOMEM;
        return -1;
    }
    hash_in(r->start ^ req);
    if(req == UFFDIO_UNREGISTER) {
        uf_release(r->start, r->start + r->len);
        return 0;
    }
    if(((struct uffdio_register *) arg)->mode != UFFDIO_REGISTER_MODE_MISSING || nufr == 4096)
        sim_internal("userfaultfd registration mode %llu", (unsigned long long) ((struct uffdio_register *) arg)->mode);
    ufr[nufr++] = (ufr_t){r->start, r->start + r->len};
    mprotect((void *) r->start, r->len, PROT_NONE); /* the first access traps */
    return 0;
}
int sim_poll(struct pollfd *p, unsigned long n, int timeout) {
    sched_helper_wait(uf_ready);
    p->revents = POLLIN;
    return 1;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
    sched_point_sync();
    if(fd != UF_FD || !uf_open) {
        errno = EBADF;
        return -1;
    }
    if(n < sizeof(struct uffd_msg)) {
        errno = EINVAL;
        return -1;
    }
    if(!nuf_order) {
        errno = EAGAIN;
        return -1;
    }
    int k = uf_order[0];
    uf_take(0);
    struct uffd_msg m;
    memset(&m, 0, sizeof m);
    m.event = UFFD_EVENT_PAGEFAULT;
    m.arg.pagefault.address = ufe[k].addr;
    m.arg.pagefault.flags = ufe[k].write ? UFFD_PAGEFAULT_FLAG_WRITE : 0;
    m.arg.pagefault.feat.ptid = 1000 + (u32) k;
    memcpy(buf, &m, sizeof m);
    return sizeof m;
}
extern void *hook_calloc(size_t, size_t);
extern void iso_free_size(void *, size_t);
int sim_pthread_create(void *t, const void *attr, void *(*fn)(void *), void *arg) {
    sched_point_sync();
    int e = fault(F_UFFD);
    if(e)
        return e;
    /* the C library allocates the thread's descriptor table with the program's calloc (given back, to keep the model's books) */
    void *dtv = hook_calloc(1, 288);
    if(dtv)
        iso_free_size(dtv, 288);
    *(unsigned long *) t = 77;
    return sched_helper_start(fn, arg);
}
#else
int uffd_fault(u64 a, int write) { return 0; }
static void uf_release(u64 s, u64 e) {}
long sim_syscall(long n, long a, long b, long c, long d) { return sim_getrandom((void *) a, (size_t) b, (unsigned) c); }
#endif

/* every accessible region has an inaccessible page directly below and above it */
void kern_guard_check(const char *when) {
    int all = feat.big_guard && feat.meta_guard;
    if(res->faults[F_MUNMAP]) /* memory the allocator gave up may still be there */
        return;
    for(int i = 0; i < nvma; i++) {
        if((vma[i].prot & (PROT_READ | PROT_WRITE)) == 0)
            continue;
        if(vma[i].big && !all)
            continue;
        int j = i;
        while(j + 1 < nvma && vma[j + 1].start == vma[j].end && vma[j + 1].id == vma[i].id && vma[j + 1].prot != PROT_NONE)
            j++;
        int lo = i > 0 && vma[i - 1].end == vma[i].start && vma[i - 1].prot == PROT_NONE;
        int hi = j + 1 < nvma && vma[j + 1].start == vma[j].end && vma[j + 1].prot == PROT_NONE;
        if(!lo || !hi)
            V("guard", "%s: accessible region %llx-%llx has no inaccessible page directly %s it", when,
                          (unsigned long long) vma[i].start, (unsigned long long) vma[j].end, lo ? "above" : "below");
        i = j;
    }
}
