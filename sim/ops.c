/* Operations against the real allocator, and the reference model that judges them. */
#include "model.h"
#include <dlfcn.h>
#include "isoalloc_sim_knobs.h"
#include "iso_alloc.h"
#include <setjmp.h>

#ifndef MEMORY_TAGGING
#define MEMORY_TAGGING 0
#endif
#ifndef SMALL_MEM_STARTUP
#define SMALL_MEM_STARTUP 0
#endif
feat_t feat = {
#if MEMORY_TAGGING
    .tagging = 1,
#endif
#if SANITIZE_CHUNKS
    .sanitize = 1,
#endif
#if PROTECT_FREE_BIG_ZONES
    .prot_big = 1,
#endif
#if BIG_ZONE_GUARD
    .big_guard = 1,
#endif
#if BIG_ZONE_META_DATA_GUARD
    .meta_guard = 1,
#endif
#if ALLOC_SANITY
    .sane = 1,
#endif
#if UAF_PTR_PAGE
    .uaf = 1,
#endif
#if SIGNAL_HANDLER
    .sighandler = 1,
#endif
#if STRONG_SIZE_ISOLATION
    .strong = 1,
#endif
#if ABORT_ON_NULL
    .abort_null = 1,
#endif
#if THREAD_SUPPORT
    .threads = 1,
#endif
#if USE_SPINLOCK
    .spin = 1,
#endif
#if CPU_PIN
    .cpu_pin = 1,
#endif
#if HEAP_PROFILER
    .prof = 1,
#endif
#if MEMCPY_SANITY
    .memcpy_s = 1,
#endif
#if MEMSET_SANITY
    .memset_s = 1,
#endif
#if SIM_CPP
    .cpp = 1,
#endif
#if PERM_FREE_REALLOC
    .perm_realloc = 1,
#endif
#if LEAK_DETECTOR
    .leak = 1,
#endif
#if UNINIT_READ_SANITY
    .uninit = 1,
#endif
#if ISO_DTOR_CLEANUP
    .dtor_cleanup = 1,
#endif
#if AUTO_CTOR_DTOR
    .ctor = 1,
#endif
#if DISABLE_CANARY
    .no_canary = 1,
#endif
#if NO_ZERO_ALLOCATIONS
    .zero_page = 1,
#endif
#ifdef SIM_SMALL_SAMPLE_TABLE
    .sample_max = SIM_SMALL_SAMPLE_TABLE,
#else
    .sample_max = 1024,
#endif
};

slot_t slots[MAXSLOTS];
group_t groups[MAXGROUPS];
zone_t zones[MAXZONES];
int heap_destroyed;
static int heap_ready;      /* some thread has seen the heap initialised */
static void *zero_ptr;      /* address seen for zero-size requests */
static int expect_abort, expect_segv;
static u64 ev;              /* event counter: orders begin/end of calls */
static u64 op_seedbase;
static u32 op_cpus[MAXOPS + 1];
static u64 live_bytes;
static u32 rec_id0; /* mappings from this one on were made with the recorded entropy */

/* misc externs */
extern void *hook_malloc(size_t), *hook_calloc(size_t, size_t), *hook_realloc(void *, size_t), *hook_reallocarray(void *, size_t, size_t);
extern void *hook___libc_reallocarray(void *, size_t, size_t), *hook___libc_malloc(size_t), *hook___libc_calloc(size_t, size_t), *hook___libc_realloc(void *, size_t), *hook___libc_memalign(size_t, size_t);
extern void hook_free(void *), hook___libc_free(void *);
extern void *hook_memalign(size_t, size_t), *hook_aligned_alloc(size_t, size_t);
extern void *(*__malloc_hook)(size_t, const void *) __attribute__((weak)), *(*__realloc_hook)(void *, size_t, const void *) __attribute__((weak));
extern void (*__free_hook)(void *, const void *) __attribute__((weak)), *(*__memalign_hook)(size_t, size_t, const void *) __attribute__((weak));
/* the entry points a C library with allocation hooks would call */
static void *old_malloc(size_t n) { return &__malloc_hook ? __malloc_hook(n, "caller") : hook_malloc(n); }
static void *old_realloc(void *p, size_t n) { return &__realloc_hook ? __realloc_hook(p, n, "caller") : hook_realloc(p, n); }
static void *old_memalign(size_t a, size_t n) { return &__memalign_hook ? __memalign_hook(a, n, "caller") : hook_memalign(a, n); }
static void old_free(void *p) {
    if(&__free_hook)
        __free_hook(p, "caller");
    else
        hook_free(p);
}
extern int hook_posix_memalign(void **, size_t, size_t);
extern size_t hook_malloc_usable_size(void *);
extern void *hook_memcpy(void *, const void *, size_t) __attribute__((weak));
extern void *hook_memmove(void *, const void *, size_t) __attribute__((weak));
extern void *hook_memset(void *, int, size_t) __attribute__((weak));
extern int cxx_new(int which, size_t n, size_t align, void **out) __attribute__((weak)); /* returns 1 if it threw */
extern void cxx_delete(int which, void *p, size_t n, size_t align) __attribute__((weak));
extern void (*__start_sim_ctors[])(void) __attribute__((weak));
extern void (*__stop_sim_ctors[])(void) __attribute__((weak));
extern void (*__start_sim_dtors[])(void) __attribute__((weak));
extern void (*__stop_sim_dtors[])(void) __attribute__((weak));
extern sigjmp_buf *model_guard;

static u64 count_zone_vmas(void);
int model_expect_abort(void) {
    /* the number of zones is limited by design: running out stops the program */
    if(plan->knob[K_MAX_ZONES] && (long) count_zone_vmas() >= plan->knob[K_MAX_ZONES] - 1)
        return 1;
    return probing || expect_abort;
}
int model_expect_segv(void) { return expect_segv; }

#define UL(x) ((unsigned long long) (x))
static inline u64 knob_or(int k, u64 d) { return plan->knob[k] ? (u64) plan->knob[k] : d; }
#define QUAR_SZ knob_or(K_QUAR, 64)
#define RETIRE_N knob_or(K_ZONE_RETIRE, 32)
#define BIG_RETIRE_N knob_or(K_BIG_RETIRE, 16)
#define BIG_LIST_N knob_or(K_BIG_FREE_LIST, 64)
static u64 round32(u64 n) { return n < 32 ? 32 : (n + 31) & ~31ULL; }
static u64 pageup(u64 n) { return (n + PAGE - 1) & ~(PAGE - 1); }
static int fault_now(void) { return any_fault_fired && fault_phase == run_phase && (run_phase != 1 || fault_op == cur->in_op); }
static int munmap_faulted(void) { return res->faults[F_MUNMAP] != 0; }
static u64 untag(u64 p) { return feat.tagging ? p & 0x00ffffffffffffffULL : p; }

/* ---------------------------------------------------------------- ordered map of blocks */
static node_t *root, *freelist;
static rng_t tprng = {77};
static node_t *nd_new(void) {
    node_t *n = freelist;
    if(!n) {
        node_t *b = calloc(1024, sizeof *b);
        for(int i = 0; i < 1024; i++) {
            b[i].l = freelist;
            freelist = &b[i];
        }
        n = freelist;
    }
    freelist = n->l;
    memset(n, 0, sizeof *n);
    static u32 uids;
    n->uid = ++uids;
    n->pri = (u32) rnd(&tprng);
    n->zone = -1;
    return n;
}
static inline int nd_less(const node_t *a, const node_t *b) { return a->s != b->s ? a->s < b->s : a->uid < b->uid; }
static void split(node_t *t, const node_t *k, node_t **a, node_t **b) { /* a: before k */
    if(!t)
        *a = *b = NULL;
    else if(nd_less(t, k)) {
        split(t->r, k, &t->r, b);
        *a = t;
    } else {
        split(t->l, k, a, &t->l);
        *b = t;
    }
}
static node_t *merge(node_t *a, node_t *b) {
    if(!a)
        return b;
    if(!b)
        return a;
    if(a->pri > b->pri) {
        a->r = merge(a->r, b);
        return a;
    }
    b->l = merge(a, b->l);
    return b;
}
static void nd_insert(node_t *n) {
    node_t **pp = &root;
    while(*pp && (*pp)->pri >= n->pri)
        pp = nd_less(*pp, n) ? &(*pp)->r : &(*pp)->l;
    split(*pp, n, &n->l, &n->r);
    *pp = n;
}
static void nd_remove(node_t *n) {
    node_t **pp = &root;
    while(*pp && *pp != n)
        pp = nd_less(*pp, n) ? &(*pp)->r : &(*pp)->l;
    if(!*pp)
        sim_internal("model: block not in map");
    *pp = merge(n->l, n->r);
}
static void nd_free(node_t *n) {
    n->l = freelist;
    freelist = n;
}
static node_t *nd_below(u64 a) { /* greatest start < a */
    node_t *t = root, *b = NULL;
    while(t)
        if(t->s < a) {
            b = t;
            t = t->r;
        } else
            t = t->l;
    return b;
}
static node_t *nd_from(u64 a) { /* smallest start >= a */
    node_t *t = root, *b = NULL;
    while(t)
        if(t->s >= a) {
            b = t;
            t = t->l;
        } else
            t = t->r;
    return b;
}
static void nd_walk(node_t *t, void (*f)(node_t *, void *), void *a) {
    if(!t)
        return;
    node_t *r = t->r;
    nd_walk(t->l, f, a);
    f(t, a);
    nd_walk(r, f, a);
}

/* ---------------------------------------------------------------- regions and large blocks */
static region_t *regions;
static u32 nregions;
static region_t *region(u32 id) {
    if(id >= nregions) {
        u32 n = (id + 1) * 2;
        regions = realloc(regions, n * sizeof *regions);
        memset(regions + nregions, 0, (n - nregions) * sizeof *regions);
        for(u32 i = nregions; i < n; i++)
            regions[i].zone = -1;
        nregions = n;
    }
    return &regions[id];
}
static bigrec_t *bigs;
static u32 nbigs, capbigs;
static bigrec_t *big_of(u32 id) {
    for(u32 i = nbigs; i-- > 0;)
        if(bigs[i].user == id && !bigs[i].dead)
            return &bigs[i];
    return NULL;
}
static int vma_exists(u32 id) {
    for(int i = 0; i < nvma; i++)
        if(vma[i].id == id)
            return 1;
    return 0;
}
static vma_t *vma_rw_of(u32 id) {
    for(int i = 0; i < nvma; i++)
        if(vma[i].id == id && (vma[i].prot & PROT_WRITE))
            return &vma[i];
    return NULL;
}

/* ---------------------------------------------------------------- delayed-free queue */
static u64 push_begun, push_done, base_lo, base_hi, cand_lo, flush_end_ev, flush_begin_ev;
static int flushing;
static u64 drain_at(u64 push, u64 base) { /* number of the push that drains entry `push` */
    u64 q = QUAR_SZ;
    if(push <= base)
        push = base + 1;
    return base + q * ((push - base + q - 1) / q) + 1;
}
static int drain_possible(node_t *n) {
    if(flushing || n->free_seq < flush_end_ev)
        return 1;
    for(u64 b = base_lo; b <= base_hi; b++)
        if(push_begun >= drain_at(n->push_min, b))
            return 1;
    return 0;
}
static int drain_certain(node_t *n) { /* only at quiescence */
    if(n->end_ev < flush_begin_ev)
        return 1;
    for(u64 b = base_lo; b <= base_hi; b++)
        if(push_begun < drain_at(n->push_max, b))
            return 0;
    return 1;
}
static void flush_begin(void) {
    if(!flushing++)
        cand_lo = push_done;
}
static void flush_done(u64 started) {
    flushing--;
    base_lo = cand_lo;
    base_hi = push_begun;
    flush_end_ev = ++ev;
    if(started > flush_begin_ev)
        flush_begin_ev = started;
}

/* ---------------------------------------------------------------- contents */
#define EDGE 4096ULL
static inline u64 pat(u64 seed, u64 w) { return (seed + w * 0x9e3779b97f4a7c15ULL) ^ (seed >> 7) ^ (w << 40); }
static void fill(node_t *n, u64 len) {
    u8 *p = (u8 *) n->s;
    n->filled = len;
    n->touched = 1;
    u64 full = len / 8;
    u64 *q = (u64 *) p;
    if(len <= 65536 + 64) {
        for(u64 i = 0; i < full; i++)
            q[i] = pat(n->seed, i);
        for(u64 o = full * 8; o < len; o++)
            p[o] = (u8) (pat(n->seed, o / 8) >> (8 * (o & 7)));
        return;
    }
    for(u64 i = 0; i < EDGE / 8; i++)
        q[i] = pat(n->seed, i);
    for(u64 o = (len - EDGE) & ~7ULL; o + 8 <= len; o += 8)
        q[o / 8] = pat(n->seed, o / 8);
    for(u64 o = full * 8; o < len; o++)
        p[o] = (u8) (pat(n->seed, o / 8) >> (8 * (o & 7)));
    u64 step = len > (16 << 20) ? (len / 64) & ~7ULL : PAGE;
    for(u64 o = EDGE; o + EDGE + 8 < len; o += step)
        q[o / 8] = pat(n->seed, o / 8);
}
/* offset of first wrong byte below len, or -1 */
static long mismatch(const u8 *p, u64 seed, u64 filled, u64 len) {
    const u64 *q = (const u64 *) p;
    if(len > filled)
        len = filled;
#define CK(o)                                                                        \
    do {                                                                             \
        if((o) + 8 <= len) {                                                         \
            if(unlikely(q[(o) / 8] != pat(seed, (o) / 8)))                           \
                for(int k = 0; k < 8; k++)                                           \
                    if(p[(o) + k] != (u8) (pat(seed, (o) / 8) >> (8 * k)))           \
                        return (long) ((o) + k);                                     \
        } else                                                                       \
            for(u64 b = (o); b < len; b++)                                           \
                if(p[b] != (u8) (pat(seed, b / 8) >> (8 * (b & 7))))                 \
                    return (long) b;                                                 \
    } while(0)
    if(filled <= 65536 + 64) {
        for(u64 o = 0; o < len; o += 8)
            CK(o);
        return -1;
    }
    for(u64 o = 0; o < EDGE && o < len; o += 8)
        CK(o);
    for(u64 o = (filled - EDGE) & ~7ULL; o < len; o += 8)
        CK(o);
    u64 step = filled > (16 << 20) ? (filled / 64) & ~7ULL : PAGE;
    for(u64 o = EDGE; o + EDGE + 8 < filled && o < len; o += step)
        CK(o);
    return -1;
}
static void check_node(node_t *n, const char *when) {
    if(n->state != N_LIVE)
        return;
    int i = vma_find(n->s);
    if(i < 0 || vma[i].end < n->s + 1 || !(vma[i].prot & PROT_WRITE))
        V("unusable", "%s: live block %#llx (%llu bytes) is no longer accessible", when, UL(n->s), UL(n->e - n->s));
    if(!n->touched)
        return;
    long o = mismatch((u8 *) n->s, n->seed, n->filled, n->filled);
    if(o >= 0)
        V("content", "%s: byte %ld of live block %#llx (%llu bytes%s) changed although its owner did not change it: found %#x", when, o, UL(n->s),
          UL(n->e - n->s), n->zone >= 0 ? ", private zone" : n->big ? ", large" : "", ((u8 *) n->s)[o]);
}

/* ---------------------------------------------------------------- kernel callbacks */
static int destroying;
static void live_hit(u64 s, u64 e, const char *kind, const char *what) {
    if(destroying) /* the program gave up everything */
        return;
    node_t *n = nd_below(e);
    while(n && n->e > s) {
        if(n->state == N_LIVE)
            V(kind, "the allocator %s %#llx-%#llx while block %#llx (%llu bytes) is live there", what, UL(s), UL(e), UL(n->s), UL(n->e - n->s));
        n = nd_below(n->s);
    }
}
static void retire_probe(u64 s, u64 e) {
    for(int i = 0; i < nvma; i++)
        if(vma[i].end > s && vma[i].start < e && vma[i].id < nregions && regions[vma[i].id].known && regions[vma[i].id].kind == 0 && cur && cur->in_op >= 0 && vma[i].prot != PROT_NONE &&
           plan->op[cur->in_op].code != O_zdestroy && plan->op[cur->in_op].code != O_destroy && run_phase == 1)
            PROBE(retire);
}
void model_unmap(u64 s, u64 e) {
    retire_probe(s, e);
    live_hit(s, e, "unmap-live", "unmaps");
    node_t *n = nd_below(e);
    while(n && n->e > s) {
        node_t *p = nd_below(n->s);
        if(n->state != N_LIVE && n->state != N_MOVING) {
            nd_remove(n);
            nd_free(n);
        }
        n = p;
    }
}
static int same_region(u64 s, int id) { return vma_find(s) >= 0 && (int) vma[vma_find(s)].id == id; }
static int protecting;
void model_noaccess(u64 s, u64 e, int prot) {
    if((prot & (PROT_READ | PROT_WRITE)) != (PROT_READ | PROT_WRITE) && !protecting) {
        retire_probe(s, e);
        live_hit(s, e, "protect-live", "makes inaccessible");
    }
}
void model_discard(u64 s, u64 e) { live_hit(s, e, "discard-live", "lets the kernel discard"); }

/* ---------------------------------------------------------------- accepting a block */
static u64 next_seed(void) { return mix64(op_seedbase += 0x51ed270b); }

static void clash(node_t *o, u64 s, u64 e, const char *what) {
    static const char *st[] = {"live", "queued for release", "free", "being resized", "permanently freed"};
    (void) st;
    switch(o->state) {
    case N_LIVE:
        V("overlap", "%s %#llx-%#llx overlaps the live block %#llx-%#llx", what, UL(s), UL(e), UL(o->s), UL(o->e));
    case N_QUAR:
        if(!drain_possible(o))
            V("early-reissue", "%s %#llx-%#llx reuses block %#llx although the delayed-free queue that holds it was not drained (%llu frees since)",
              what, UL(s), UL(e), UL(o->s), UL(push_begun - o->push_min));
        break;
    case N_PERM:
        V("perm-reissue", "%s %#llx-%#llx reuses the permanently freed block %#llx-%#llx", what, UL(s), UL(e), UL(o->s), UL(o->e));
    default:
        break;
    }
}
/* [s,e) becomes part of block `self`: every other block there must be gone */
static void claim(u64 s, u64 e, node_t *self, const char *what) {
    node_t *o = nd_below(e);
    while(o && o->e > s) {
        node_t *p = nd_below(o->s);
        if(o != self) {
            clash(o, s, e, what);
            if(o->state != N_MOVING) {
                nd_remove(o);
                nd_free(o);
            }
            PROBE(reissue);
        }
        o = p;
    }
}
static void set_rep(node_t *n, u64 rep) {
    if(rep < n->req)
        V("size", "block %#llx was requested with %llu bytes but reports only %llu", UL(n->s), UL(n->req), UL(rep));
    if(n->rep && n->rep != rep)
        V("size", "the reported size of live block %#llx changed from %llu to %llu", UL(n->s), UL(n->rep), UL(rep));
    if(n->s + rep > n->e) {
        int i = vma_find(n->s);
        if(i < 0 || vma[i].end < n->s + rep)
            V("size", "block %#llx reports %llu bytes but only %llu are accessible", UL(n->s), UL(rep), UL(i < 0 ? 0 : vma[i].end - n->s));
        claim(n->s, n->s + rep, n, "reported extent");
        n->e = n->s + rep;
    }
    n->rep = rep;
    if(!n->big && !n->sampled) {
        region_t *r = region(n->region);
        if(r->chunk && r->chunk != rep)
            V("size", "two blocks of one zone report different sizes: %llu and %llu", UL(r->chunk), UL(rep));
        r->chunk = rep;
        if(n->zone >= 0) {
            zone_t *z = &zones[n->zone];
            if(rep != z->chunk)
                V("zone-size", "chunk of a private zone for %llu bytes reports %llu bytes instead of %llu", UL(z->req), UL(rep), UL(z->chunk));
        }
        if(feat.strong && n->zone < 0 && rep != round32(n->eff ? n->eff : n->req))
            V("strong-size", "request of %llu bytes was served with a chunk of %llu bytes", UL(n->req), UL(rep));
    }
}
static u64 probe_chunk_size(node_t *n) {
    u64 r = iso_chunksz((void *) n->s);
    set_rep(n, r);
    return r;
}

static u64 acc_eff; /* what the allocator is asked for when it is more than req (calloc rounds every element up) */
static u64 accepted; /* blocks handed out so far */
static u64 prof_na, prof_nf; /* allocations and frees a heap profile must have counted */
static u64 sample_tries, samples_seen;
static node_t *accept(void *vp, u64 req, int z, const char *what) {
    u64 p = (u64) vp, eff = acc_eff > req ? acc_eff : req;
    acc_eff = 0;
    accepted++;
    prof_na += *what == 'm' || *what == 'c';
    heap_ready = 1;
    if(cur->no_entropy)
        V("entropy", "%s(%llu) returned a block although the last draw of entropy in the call had been refused", what, UL(req));
    if(p & 7)
        V("align", "%s(%llu) returned %#llx, not aligned to 8 bytes", what, UL(req), UL(p));
    int i = vma_find(p);
    if(i < 0)
        V("unmapped", "%s(%llu) returned %#llx, which is not mapped", what, UL(req), UL(p));
    u32 id = vma[i].id;
    if((vma[i].prot & (PROT_READ | PROT_WRITE)) != (PROT_READ | PROT_WRITE))
        V("unusable", "%s(%llu) returned %#llx on pages with protection %u", what, UL(req), UL(p), vma[i].prot);
    if(vma[i].end < p + req)
        V("short", "%s(%llu) returned %#llx, where only %llu bytes are accessible", what, UL(req), UL(p), UL(vma[i].end - p));
    u64 rlen = vma[i].end - vma[i].start;
    region_t *r = region(id);
    int fresh = !r->known;
    if(fresh) {
        r->known = 1;
        r->start = vma[i].start;
        r->cpu = vma[i].op >= 0 ? op_cpus[vma[i].op] : 1;
    }
    claim(p, p + (req ? req : 1), NULL, what);
    node_t *n = nd_new();
    n->s = p;
    n->e = p + (req ? req : 1);
    n->req = req;
    n->eff = eff;
    n->state = N_LIVE;
    n->region = id;
    n->zone = z;
    n->seed = next_seed();
    n->big = eff > 65536;
    sample_tries += z < 0 && eff && eff <= 4000 && (*what == 'm' || *what == 'c');
    if(rlen == PAGE && !n->big) {
        samples_seen++;
        if(!feat.sane)
            V("foreign", "%s(%llu) returned %#llx in a mapping of a single page", what, UL(req), UL(p));
        n->sampled = 1;
        r->kind = 2;
        PROBE(sample);
        if(z >= 0)
            V("sample", "a private zone returned a sampled block");
        if(i == 0 || vma[i - 1].end != vma[i].start || vma[i - 1].prot != PROT_NONE || i + 1 >= nvma || vma[i + 1].start != vma[i].end ||
           vma[i + 1].prot != PROT_NONE)
            V("sample", "sampled block %#llx is not isolated by inaccessible pages", UL(p));
    }
    if(n->big) {
        r->kind = 1;
        bigrec_t *b = big_of(id);
        u64 size = vma[i].end - p;
        if(!b) {
            if(nbigs == capbigs) {
                capbigs = capbigs ? capbigs * 2 : 64;
                bigs = realloc(bigs, capbigs * sizeof *bigs);
            }
            b = &bigs[nbigs++];
            memset(b, 0, sizeof *b);
            b->user = id;
            b->s = p;
            b->size = size;
            /* its bookkeeping page: the other mapping this call made, next to it in time */
            u32 best = 0, bestd = ~0u;
            for(int k = 0; k < nvma; k++)
                if(vma[k].op == cur->in_op && vma[k].id != id && (vma[k].prot & PROT_WRITE) && vma[k].end - vma[k].start == PAGE) {
                    u32 d = vma[k].id > id ? vma[k].id - id : id - vma[k].id;
                    int used = 0;
                    for(u32 q = 0; q + 1 < nbigs; q++)
                        used |= bigs[q].meta == vma[k].id && !bigs[q].dead;
                    if(!used && (d < bestd || (d == bestd && vma[k].id > best))) {
                        bestd = d;
                        best = vma[k].id;
                        b->meta_s = vma[k].start;
                    }
                }
            b->meta = best;
            for(int k = 0; k < nvma; k++)
                if(vma[k].id == id || (best && vma[k].id == best))
                    vma[k].big = 1;
            if(recording && b->meta) {
                u8 *pg = (u8 *) b->meta_s;
                for(u64 i = 0; i + 8 < PAGE; i++)
                    if(pg[i]) {
                        u64 v;
                        memcpy(&v, pg + i, 8);
                        if(recording == 1)
                            rec(6, v);
                        break;
                    }
            }
            PROBE(bignew);
        } else {
            PROBE(bigreuse);
            if(b->perm)
                V("perm-reissue", "large block %#llx was permanently freed but handed out again", UL(p));
            if(b->s != p)
                V("overlap", "large block %#llx does not start at its mapping %#llx", UL(p), UL(b->s));
            if(size > pageup(eff) + 16384)
                V("big-waste", "request for %llu bytes was served with a cached block of %llu bytes", UL(eff), UL(size));
        }
        b->cached = 0;
        b->served++;
        if(b->served > (int) BIG_RETIRE_N)
            V("big-retire", "large block %#llx was handed out %d times", UL(p), b->served);
    } else if(!n->sampled) {
        if(rlen != ZONE_BYTES)
            V("foreign", "%s(%llu) returned %#llx in a mapping of %llu bytes that is not a zone", what, UL(req), UL(p), UL(rlen));
        if(r->kind == 1)
            V("foreign", "%s(%llu) returned %#llx inside a mapping of a large block", what, UL(req), UL(p));
        r->allocs++;
        if(recording)
            rec(1, p - r->start);
        if(z >= 0) {
            if(zones[z].region && zones[z].region != id)
                V("isolation", "private zone %d returned %#llx from memory of %s", z, UL(p), r->zone >= 0 ? "another private zone" : "no private zone of its own");
            if(!zones[z].region && !fresh && r->zone != z)
                V("isolation", "private zone %d returned %#llx from memory used by others", z, UL(p));
            zones[z].region = id;
            r->zone = z;
            r->chunk = zones[z].chunk;
        } else if(r->zone >= 0)
            V("isolation", "%s(%llu) returned %#llx from memory of private zone %d", what, UL(req), UL(p), r->zone);
        if(r->chunk) {
            if((p - r->start) % r->chunk)
                V("overlap", "%s(%llu) returned %#llx, which is not the start of a chunk (chunk size %llu)", what, UL(req), UL(p), UL(r->chunk));
            if(r->chunk < req)
                V("short", "%s(%llu) returned a chunk of %llu bytes", what, UL(req), UL(r->chunk));
        }
        if(feat.strong && z < 0) { /* chunks of different rounded sizes never share a zone */
            if(r->chunk && r->chunk != round32(eff))
                V("strong-size", "request of %llu bytes shares a zone with chunks of %llu bytes", UL(eff), UL(r->chunk));
            r->chunk = round32(eff);
        }
        if(feat.cpu_pin && z < 0 && !(r->cpu & op_cpus[cur->in_op >= 0 ? cur->in_op : MAXOPS]))
            V("cpu", "%s(%llu) on core mask %#x returned %#llx from a zone of core mask %#x", what, UL(req), op_cpus[cur->in_op], UL(p), r->cpu);
    }
    nd_insert(n);
    live_bytes += n->e - n->s;
    hash_in(p);
    return n;
}

/* a NULL answer: legal only when something prevented the allocation */
static void check_null(u64 req, const char *what) {
    PROBE(nullret);
    if(fault_now())
        return;
    V("null", "%s(%llu) returned NULL although nothing prevents it", what, UL(req));
}

/* ---------------------------------------------------------------- releasing a block */
static void check_scrub(node_t *n, u64 s, u64 filled, u64 seed, const char *when);

/* before the call */
static void free_begin(node_t *n, int queued, int perm) {
    check_node(n, "before free");
    live_bytes -= n->e - n->s;
    n->free_seq = ++ev;
    if(perm) {
        n->state = N_PERM;
    } else if(queued && !n->sampled) {
        n->state = N_QUAR;
        push_begun++;
        n->push_min = push_done + 1;
        if(push_begun - 1 == push_done)
            n->push_min = push_begun;
    } else
        n->state = N_FREED;
    if(n->big && !perm) {
        bigrec_t *b = big_of(n->region);
        if(b)
            b->cached = 1;
    }
    if(n->zone >= 0 && !perm)
        zones[n->zone].nlive--, zones[n->zone].nfreed++;
}
/* after the call; the node may already have been reissued, so only its id by value is used */
typedef struct { node_t *n; u64 s, seq; int queued; } fr_t;
static void free_end(fr_t *f) {
    if(f->queued)
        push_done++;
    /* still the same freed block? */
    node_t *n = nd_from(f->s);
    if(n && n->s == f->s && n == f->n && n->free_seq == f->seq && n->state == N_QUAR) {
        n->push_max = push_begun;
        n->end_ev = ++ev;
    }
}

static int can_zfree(node_t *n) { return n->zone >= 0; }

static u64 tag_frees[2], tag_kept[2];
/* release a live block in one of the legal ways */
static void do_free(node_t *n, int how) {
    u64 s = n->s, req = n->req, rep = n->rep, e = n->e;
    int z = n->zone, big = n->big, tagged = n->tagged;
    void *p = (void *) s;
    void *tp = tagged ? (void *) (s | (u64) n->tag << 56) : p;
    if(n->sampled && (how == 4 || how == 6))
        how = 0;
    if((how == 4 || how == 6) && (!can_zfree(n) || big))
        how = 0;
    if(how == 2 && !rep)
        how = 1;
    if(how == 6 && n->zone < 0)
        how = 5;
    if(how == 5 && n->sampled)
        how = 0;
    if((how == 1 || how == 2 || how == 3) && big == 0 && req == 0)
        how = 0;
    int queued = (how == 0 || how == 7 || how >= 8) && !n->sampled, perm = how == 5 || how == 6;
    if(z >= 0)
        zones[z].nbusy++;
    fr_t f = {n, s, 0, queued};
    u64 filled = n->touched ? n->filled : 0, seed = n->seed;
    u32 reg = n->region;
    u8 sampled = n->sampled;
    bigrec_t *b = big ? big_of(n->region) : NULL;
    u64 bsz = b ? b->size : 0;
    u32 umap = b ? b->user : 0, mmap_ = b ? b->meta : 0;
    static vma_t *snap;
    static int nsnap;
    int quiet = !others_in_call();
    u64 done0 = res->ops_done;
    if(perm && b) {
        b->perm = 1;
        if(quiet) {
            snap = realloc(snap, sizeof(vma_t) * (nvma + 1));
            nsnap = nvma;
            memcpy(snap, vma, sizeof(vma_t) * nvma);
        }
    }
    if(how == 9)
        queued = f.queued = 0;
    void *tagzone = feat.tagging && z >= 0 && zones[z].live && !zones[z].destroying && zones[z].region == reg && !perm && !queued && !sampled && quiet ? zones[z].h : NULL;
    u8 tag0 = tagzone ? iso_alloc_get_mem_tag(p, tagzone) : 0;
    free_begin(n, queued, perm);
    n->how = (u8) how;
    f.seq = n->free_seq;
    switch(how) {
    case 1: iso_free_size(p, req); break;
    case 2: iso_free_size(p, rep); break;
    case 3: {
        u64 k = big ? (req > 65536 + 64 ? req - 32 : req) : (req > 1 ? req / 2 : req);
        iso_free_size(p, k ? k : 1);
        break;
    }
    case 4: iso_free_from_zone(tp, zones[z].h); break;
    case 5:
        PROBE(permsmall);
        iso_free_permanently(p);
        break;
    case 6:
        PROBE(permsmall);
        iso_free_from_zone_permanently(tp, zones[z].h);
        break;
    case 7: (s & 64 ? hook_free : s & 128 ? old_free : hook___libc_free)(p); break;
    case 8: cxx_delete ? cxx_delete((int) (seed & 7), p, req, 32) : iso_free(p); break;
    case 10:
        if(s & 64 ? hook_realloc(p, 0) : iso_realloc(p, 0))
            V("realloc", "resizing to zero returned a block");
        break;
    case 9: cxx_delete ? cxx_delete(8 + (int) (seed & 1), p, req, 32) : iso_free_size(p, req); break;
    default:
        iso_free(p);
        prof_nf += !sampled;
        break;
    }
    free_end(&f);
    if(tagzone && !others_in_call() && res->ops_done == done0) { /* the freed chunk's tag is drawn afresh, also by the free that empties its zone */
        int k = zones[z].nlive == 0;
        tag_frees[k]++;
        tag_kept[k] += iso_alloc_get_mem_tag(p, tagzone) == tag0;
        if(tag_kept[k] >= 6 && tag_kept[k] * 4 >= tag_frees[k] * 3)
            V("tag", "%llu of %llu chunks %sstill had the tag of their last lifetime after they were freed", UL(tag_kept[k]), UL(tag_frees[k]), k ? "whose zone became empty " : "");
    }
    if(z >= 0)
        zones[z].nbusy--;
    node_t *m = nd_from(s);
    int mine = m == n && m->s == s && m->free_seq == f.seq;
    if(!queued && !big && !sampled && mine && !feat.no_canary) {
        int vi = vma_find(s);
        if(vi >= 0 && vma[vi].id == reg) { /* the check value now at the start of the chunk */
            u64 v = *(u64 *) s;
            if(v & 0xff)
                V("canary-byte", "the lowest byte of the check value in freed block %#llx is %#llx", UL(s), UL(v & 0xff));
            u64 secret = (v ^ s) >> 8;
            region_t *rg = region(reg);
            if(recording && !rg->secret && reg >= rec_id0)
                rec(2, secret);
            if(!rg->secret) {
                rg->secret = secret;
                for(u32 k = 0; k < nregions; k++)
                    if(k != reg && regions[k].secret == secret)
                        V("shared-secret", "two zones use the same check secret %#llx", UL(secret));
            }
        }
    }
    if(sampled && vma_exists(reg) && !munmap_faulted())
        V("sample", "the page of sampled block %#llx is still mapped after it was freed", UL(s));
    if(perm && b) {
        PROBE(permbig);
        int i = vma_find(s);
        if(i >= 0 && (vma[i].prot & (PROT_READ | PROT_WRITE)))
            V("perm-big", "permanently freed large block %#llx is still accessible", UL(s));
        for(u64 a = s; a < s + bsz;) {
            i = vma_find(a);
            if(i < 0)
                break;
            if(vma[i].prot & (PROT_READ | PROT_WRITE))
                V("perm-big", "part of permanently freed large block %#llx is still accessible at +%llu", UL(s), UL(a - s));
            a = vma[i].end;
        }
        if(mmap_ && vma_rw_of(mmap_))
            V("perm-big", "bookkeeping page of permanently freed large block %#llx is still accessible", UL(s));
        if(quiet && !others_in_call() && res->ops_done == done0)
            for(int k = 0; k < nsnap; k++)
                for(u64 a = snap[k].start; a < snap[k].end;) {
                    i = vma_find(a);
                    u32 np = i < 0 ? 0 : vma[i].prot;
                    u64 stop = i < 0 ? snap[k].end : vma[i].end;
                    if(np != snap[k].prot && snap[k].id != umap && snap[k].id != mmap_ && (mmap_ || a < s - PAGE || a > e + PAGE))
                        V("perm-neighbour", "permanently freeing large block %#llx changed the protection of unrelated memory %#llx (mapping %u)", UL(s), UL(a),
                          snap[k].id);
                    a = stop;
                }
    }
    if(perm && !big && mine) {
        /* the old contents are overwritten at once */
        if(vma_find(s) >= 0)
            check_scrub(n, s, filled, seed, "after permanent free");
    }
    if(!perm && !queued && !big && !sampled && mine && feat.sanitize && vma_find(s) >= 0)
        check_scrub(n, s, filled, seed, "after free");
    if(!perm && !queued && big && feat.prot_big && quiet && !others_in_call() && res->ops_done == done0 && !munmap_faulted() && vma_find(s) >= 0 && vma[vma_find(s)].prot != PROT_NONE)
        V("protect", "freed large block %#llx is cached but accessible", UL(s));
}

/* no 8-byte word of the old pattern may be left (words of the pattern are 64-bit values: chance equality is negligible) */
static void check_scrub(node_t *n, u64 s, u64 filled, u64 seed, const char *when) {
    u64 *q = (u64 *) s;
    for(u64 o = 0; o + 8 <= filled;) {
        if(q[o / 8] == pat(seed, o / 8))
            V("scrub", "%s: bytes %llu-%llu of block %#llx still hold the old contents", when, UL(o), UL(o + 7), UL(s));
        if(filled > 65536 + 64 && o >= EDGE - 8 && o + EDGE + 8 < filled) { /* large blocks are filled sparsely in between */
            u64 step = filled > (16 << 20) ? (filled / 64) & ~7ULL : PAGE, k = o < EDGE ? EDGE : o + step;
            o = k + EDGE + 8 < filled ? k : (filled - EDGE) & ~7ULL;
        } else
            o += 8;
    }
}

/* ---------------------------------------------------------------- helpers for operations */
static slot_t *slot_take(u64 i, int want_full) {
    slot_t *s = &slots[i % MAXSLOTS];
    if(s->busy || (s->n != NULL) != want_full)
        return NULL;
    s->busy = 1;
    s->zhold = s->n ? s->n->zone : -1;
    if(s->zhold >= 0)
        zones[s->zhold].nbusy++;
    return s;
}
static void slot_put(slot_t *s, node_t *n) {
    s->n = n;
    s->busy = 0;
    if(s->zhold >= 0)
        zones[s->zhold].nbusy--;
}
static zone_t *zone_take(u64 i) {
    zone_t *z = &zones[i % MAXZONES];
    if(!z->live || z->destroying || z->busy_excl)
        return NULL;
    z->nbusy++;
    return z;
}
static int touching(u64 size) { return size <= (64ULL << 20); }
static void settle_new(node_t *n, u64 flags, u64 fillto) {
    if(flags & 1)
        probe_chunk_size(n);
    u64 len = n->rep ? n->rep : fillto;
    if(flags & 4)
        len = len < 64 ? len : 64;
    if((flags & 16) && n->sampled && feat.uninit)
        return; /* nobody writes it for now */
    fill(n, len);
}
static int root_closed; /* the heap is about to be, or is, protected with calls under way */
static void begin_big(u64 size) { cur->big_ctx = heap_ready && size > 65536; }

static void *call_malloc(u64 size, u64 flags) {
    begin_big(size);
    cur->past_alloc = 0;
    void *p = (flags & 2) ? (flags & 8 ? (op_seedbase & 64 ? old_malloc(size) : hook___libc_malloc(size)) : hook_malloc(size)) : iso_alloc(size);
    cur->big_ctx = 0;
    /* the model asks the heap about the block, which the heap cannot answer while protected */
    cur->past_alloc = 1;
    while(root_closed)
        preempt_here(2000000);
    return p;
}

/* zero-size answer */
static void check_zero(void *p) {
    PROBE(zerosize);
    heap_ready = 1;
    if(!p)
        V("zero", "a zero-size request returned NULL");
    if(zero_ptr && zero_ptr != p)
        V("zero", "zero-size requests returned different addresses %#llx and %#llx", UL((u64) zero_ptr), UL((u64) p));
    zero_ptr = p;
    int i = vma_find((u64) p);
    if(i < 0 || vma[i].end - (u64) p < 1 || (vma[i].prot & (PROT_READ | PROT_WRITE)))
        V("zero", "the address for zero-size requests %#llx is %s", UL((u64) p), i < 0 ? "not mapped" : "accessible");
    u64 pg = (u64) p & ~(PAGE - 1);
    node_t *n = nd_below(pg + PAGE);
    if(n && n->e > pg)
        V("zero", "a block lies on the page for zero-size requests");
}

#define ARG(i) (o->arg[i])
static u64 canary_zones_seen;

static void zone_drop_nodes(int z) {
    for(int i = 0; i < MAXSLOTS; i++)
        if(slots[i].n && slots[i].n->zone == z) {
            live_bytes -= slots[i].n->e - slots[i].n->s;
            slots[i].n->state = N_FREED;
            slots[i].n = NULL;
        }
    for(int g = 0; g < MAXGROUPS; g++) {
        u32 k = 0;
        for(u32 i = 0; i < groups[g].n; i++) {
            node_t *n = groups[g].v[i];
            if(n && n->zone == z) {
                live_bytes -= n->e - n->s;
                n->state = N_FREED;
            } else
                groups[g].v[k++] = n;
        }
        groups[g].n = k;
    }
}
static int zone_group_busy(int z) {
    for(int g = 0; g < MAXGROUPS; g++)
        if(groups[g].busy)
            for(u32 i = 0; i < groups[g].n; i++)
                if(groups[g].v[i] && groups[g].v[i]->zone == z)
                    return 1;
    return 0;
}
static void walk_zone_count(node_t *n, void *a) {
    u64 *c = a;
    if((u64) n->zone == c[0] && n->region == c[3]) {
        if(n->state == N_LIVE || n->state == N_MOVING || n->state == N_PERM)
            c[1]++;
        if(n->state == N_QUAR)
            c[2]++;
    }
}
/* blocks of the zone that certainly or possibly occupy a chunk */
static void zone_occupancy(int z, u64 *sure, u64 *maybe) {
    u64 c[4] = {(u64) z, 0, 0, zones[z].region};
    nd_walk(root, walk_zone_count, c);
    *sure = c[1];
    *maybe = c[1] + c[2];
}

/* ---------------------------------------------------------------- allocation */
static void op_malloc(op_t *o) {
    slot_t *s = slot_take(ARG(0), 0);
    if(!s)
        return;
    u64 size = ARG(1), fl = ARG(2);
    void *p = call_malloc(size, fl);
    if(size == 0 && feat.zero_page) {
        check_zero(p);
        slot_put(s, NULL);
        return;
    }
    if(!p) {
        check_null(size, "malloc");
        slot_put(s, NULL);
        return;
    }
    node_t *n = accept(p, size, -1, "malloc");
    settle_new(n, fl, size);
    slot_put(s, n);
}

static void op_calloc(op_t *o) {
    slot_t *s = slot_take(ARG(0), 0);
    if(!s)
        return;
    u64 cnt = ARG(1), size = ARG(2), fl = ARG(3);
    begin_big(cnt * size);
    void *p = (fl & 2) ? (fl & 8 ? hook___libc_calloc(cnt, size) : hook_calloc(cnt, size)) : iso_calloc(cnt, size);
    cur->big_ctx = 0;
    unsigned __int128 need = (unsigned __int128) cnt * size;
    if(!p) {
        if(cnt && need < (1ULL << 32))
            check_null(cnt * size, "calloc");
        slot_put(s, NULL);
        return;
    }
    if(need == 0 && feat.zero_page && vma_find((u64) p) >= 0 && vma[vma_find((u64) p)].prot == PROT_NONE) {
        slot_put(s, NULL);
        return;
    }
    unsigned __int128 want = (unsigned __int128) cnt * size;
    if(want > (4ULL << 30))
        V("short", "calloc(%llu, %llu) returned a block although the product is above the limit", UL(cnt), UL(size));
    node_t *n = accept(p, (u64) want, -1, "calloc");
    u64 w = (u64) want;
    const u8 *b = p;
    for(u64 i = 0; i < w;) {
        if(i + 8 <= w && ((u64) (b + i) & 7) == 0) {
            if(*(const u64 *) (b + i)) {
                for(int k = 0; k < 8; k++)
                    if(b[i + k])
                        V("calloc", "calloc(%llu, %llu): byte %llu of %#llx is %#x, not zero", UL(cnt), UL(size), UL(i + k), UL((u64) p), b[i + k]);
            }
            i += 8;
        } else {
            if(b[i])
                V("calloc", "calloc(%llu, %llu): byte %llu of %#llx is %#x, not zero", UL(cnt), UL(size), UL(i), UL((u64) p), b[i]);
            i++;
        }
    }
    settle_new(n, fl, w);
    slot_put(s, n);
}

static void do_realloc(slot_t *s, u64 size, u64 fl, u64 cnt, u64 each) {
    node_t *n = s->n;
    void *old = n ? (void *) n->s : NULL;
    check_node(n ? n : &(node_t){.state = N_FREED}, "before realloc");
    if(n && n->sampled && !n->touched && feat.uninit) /* copying it would be a read before the first write */
        fill(n, n->req);
    u64 oseed = 0, ofilled = 0, olen = 0;
    int obig = 0, osampled = 0;
    u32 oreg = 0;
    if(n) {
        oseed = n->seed;
        ofilled = n->touched ? n->filled : 0;
        olen = n->e - n->s;
        obig = n->big;
        osampled = n->sampled;
        oreg = n->region;
        n->state = N_MOVING;
    }
    begin_big(size);
    const int over = feat.abort_null && size > (4ULL << 30); /* this build stops the program instead of returning NULL */
    expect_abort += over;
    void *r = cnt ? ((fl & 2) ? hook_reallocarray(old, cnt, each) : iso_reallocarray(old, cnt, each))
                  : ((fl & 2) ? (fl & 8 ? (op_seedbase & 64 ? old_realloc(old, size) : hook___libc_realloc(old, size)) : hook_realloc(old, size)) : iso_realloc(old, size));
    expect_abort -= over;
    cur->big_ctx = 0;
    if(!r) {
        if(!(cnt && (unsigned __int128) cnt * each >= (1ULL << 32)) && size <= (4ULL << 30))
            check_null(size, "realloc");
        if(n) {
            n->state = N_LIVE;
            check_node(n, "after a failed realloc");
        }
        slot_put(s, n);
        return;
    }
    if(size > (4ULL << 30))
        V("short", "realloc(%llu) returned a block although the size is above the limit", UL(size));
    if(n) {
        live_bytes -= olen;
        u64 os = n->s, oe = n->e;
        node_t copy = *n;
        nd_remove(n);
        nd_free(n);
        if(copy.zone >= 0 && !feat.perm_realloc)
            zones[copy.zone].nlive--, zones[copy.zone].nfreed++;
        bigrec_t *b = obig ? big_of(oreg) : NULL;
        if(b && (u64) r != os)
            b->cached = 1;
        if(feat.perm_realloc && !osampled && (u64) r != os) {
            if(b)
                b->perm = 1;
            else if(same_region(os, oreg)) { /* its zone may be gone, another one in its place */
                node_t *m = nd_new();
                *m = (node_t){.pri = m->pri, .uid = m->uid, .s = os, .e = oe, .req = copy.req, .state = N_PERM, .region = oreg, .zone = copy.zone, .free_seq = ++ev};
                claim(os, oe, NULL, "block that was permanently released by realloc");
                nd_insert(m);
            }
        } else if(!obig && !osampled && (u64) r != os) {
            /* freed directly: keep it known as free unless somebody already has it */
            node_t *x = nd_below(oe);
            if((!x || x->e <= os) && same_region(os, oreg)) {
                node_t *m = nd_new();
                *m = (node_t){.pri = m->pri, .uid = m->uid, .s = os, .e = oe, .req = copy.req, .state = N_FREED, .region = oreg, .zone = copy.zone, .free_seq = ++ev,
                              .seed = oseed, .filled = ofilled, .touched = ofilled != 0};
                nd_insert(m);
            }
        }
        if(obig != (size > 65536)) {
            if(obig)
                PROBE(realloc_b2s);
            else
                PROBE(realloc_s2b);
        } else if(obig)
            PROBE(realloc_b2b);
    }
    node_t *m = accept(r, size, -1, "realloc");
    if(n) {
        long bad = mismatch(r, oseed, ofilled, size < ofilled ? size : ofilled);
        if(bad >= 0)
            V("realloc", "realloc from %llu to %llu bytes: byte %ld of the old contents was not preserved", UL(olen), UL(size), bad);
        if(obig) {
            bigrec_t *b = big_of(oreg);
            if(b && m->region != oreg && !b->perm)
                b->cached = 1;
        }
    }
    settle_new(m, fl, size);
    slot_put(s, m);
}
static void op_realloc(op_t *o) {
    slot_t *s = &slots[ARG(0) % MAXSLOTS];
    s = slot_take(ARG(0), s->n != NULL);
    if(!s)
        return;
    if(ARG(1) == 0) {
        if(s->n) {
            node_t *n = s->n;
            do_free(n, 10);
        } else if(iso_realloc(NULL, 0))
            V("realloc", "realloc(NULL, 0) returned a block");
        slot_put(s, NULL);
        return;
    }
    do_realloc(s, ARG(1), ARG(2), 0, 0);
}
static void op_reallocarray(op_t *o) {
    u64 cnt = ARG(1), each = ARG(2);
    slot_t *s = &slots[ARG(0) % MAXSLOTS];
    if(cnt == 0 || each == 0)
        return;
    s = slot_take(ARG(0), s->n != NULL);
    if(!s)
        return;
    do_realloc(s, cnt * each, ARG(3), cnt, each);
}

/* ---------------------------------------------------------------- strings */
#define STRBUF (512u << 10)
static char *strbuf[MAXTHREADS + 2];
static char *str_end(void) {
    char **b = &strbuf[cur->id];
    if(!*b) {
        noread_step = STRBUF + PAGE;
        noread_ok = STRBUF;
        if(!noread_lo) {
            noread_lo = (u64) mmap(NULL, noread_step * (MAXTHREADS + 2), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            noread_len = noread_step * (MAXTHREADS + 2);
        }
        char *m = (char *) noread_lo + noread_step * (u64) cur->id;
        mprotect(m, STRBUF, PROT_READ | PROT_WRITE);
        *b = m + STRBUF;
    }
    return *b;
}
static void str_make(char *d, u64 len, u64 seed) {
    for(u64 i = 0; i < len; i++)
        d[i] = (char) (1 + (mix64(seed + i) % 255));
}
static void str_result(slot_t *s, char *r, const char *src, u64 len, int z, const char *what, u64 done0) {
    if(!r) {
        u64 sure, maybe;
        if(z >= 0) {
            zone_occupancy(z, &sure, &maybe);
            /* with strong isolation a chunk serves only requests of its own rounded size */
            if(others_in_call() || res->ops_done != done0 || maybe >= zones[z].adv || (feat.cpu_pin && plan->cpus > 1) || (feat.strong && round32(len + 1) != zones[z].chunk)) {
                PROBE(nullret);
                slot_put(s, NULL);
                return;
            }
        }
        check_null(len + 1, what);
        slot_put(s, NULL);
        return;
    }
    node_t *n = accept(r, len + 1, z, what);
    if(z >= 0)
        zones[z].nlive++;
    for(u64 i = 0; i < len; i++)
        if(r[i] != src[i])
            V("strdup", "%s of %llu bytes: byte %llu is %#x, expected %#x", what, UL(len), UL(i), (u8) r[i], (u8) src[i]);
    if(r[len])
        V("strdup", "%s of %llu bytes: the copy is not terminated (byte after it is %#x)", what, UL(len), (u8) r[len]);
    settle_new(n, len & 1, len + 1);
    s->zhold = s->zhold; /* the zone hold belongs to the caller */
    slot_put(s, n);
}
static void op_strdup(op_t *o) {
    u64 len = ARG(1) % (STRBUF - 8);
    int z = (int) (ARG(2) % (MAXZONES + 1)) - 1;
    zone_t *zn = NULL;
    if(z >= 0) {
        if(!(zn = zone_take(z)))
            return;
        if(len + 1 > zn->chunk) {
            zn->nbusy--;
            return;
        }
    }
    slot_t *s = slot_take(ARG(0), 0);
    if(s) {
        char *src = str_end() - len - 1;
        str_make(src, len, op_seedbase);
        src[len] = 0;
        begin_big(z < 0 ? len + 1 : 0);
        u64 done0 = res->ops_done;
        char *r = z >= 0 ? iso_strdup_from_zone(zn->h, src) : iso_strdup(src);
        cur->big_ctx = 0;
        str_result(s, r, src, len, z, "strdup", done0);
    }
    if(zn)
        zn->nbusy--;
}
static void op_strndup(op_t *o) {
    u64 len = ARG(1) % (STRBUF - 8), bound = ARG(2);
    int z = (int) (ARG(3) % (MAXZONES + 1)) - 1;
    zone_t *zn = NULL;
    u64 k = len < bound ? len : bound;
    if(z >= 0) {
        if(!(zn = zone_take(z)))
            return;
        if(k + 1 > zn->chunk) {
            zn->nbusy--;
            return;
        }
    }
    slot_t *s = slot_take(ARG(0), 0);
    if(s) {
        /* when the bound is reached first there is nothing readable behind it */
        char *src = len < bound ? str_end() - len - 1 : str_end() - bound;
        str_make(src, k, op_seedbase);
        if(len < bound)
            src[len] = 0;
        if(len >= bound)
            PROBE(strbound);
        begin_big(z < 0 ? k + 1 : 0);
        u64 done0 = res->ops_done;
        char *r = z >= 0 ? iso_strndup_from_zone(zn->h, src, bound) : iso_strndup(src, bound);
        cur->big_ctx = 0;
        str_result(s, r, src, k, z, "strndup", done0);
    }
    if(zn)
        zn->nbusy--;
}

/* ---------------------------------------------------------------- release, query, contents */
static void op_free(op_t *o) {
    slot_t *s = slot_take(ARG(0), 1);
    if(!s)
        return;
    node_t *n = s->n;
    s->n = NULL;
    do_free(n, (int) ARG(1));
    slot_put(s, NULL);
}
static void op_chunksz(op_t *o) {
    slot_t *s = slot_take(ARG(0), 1);
    if(!s)
        return;
    node_t *n = s->n;
    if(ARG(1) & 1)
        set_rep(n, hook_malloc_usable_size((void *) n->s));
    else
        probe_chunk_size(n);
    check_node(n, "after a size query");
    if(!(ARG(1) & 2)) {
        n->seed = next_seed();
        fill(n, n->rep); /* all reported bytes belong to the caller */
    }
    slot_put(s, n);
}
static void op_check(op_t *o) {
    slot_t *s = slot_take(ARG(0), 1);
    if(!s)
        return;
    check_node(s->n, "check");
    slot_put(s, s->n);
}
static void op_write(op_t *o) {
    slot_t *s = slot_take(ARG(0), 1);
    if(!s)
        return;
    node_t *n = s->n;
    check_node(n, "before writing");
    n->seed = next_seed();
    fill(n, n->e - n->s);
    slot_put(s, n);
}

/* ---------------------------------------------------------------- private zones */
static void op_znew(op_t *o) {
    int z = (int) (ARG(0) % MAXZONES);
    zone_t *zn = &zones[z];
    if(!heap_ready || zn->live || zn->busy_excl || zn->destroying || zn->nbusy)
        return;
    zn->busy_excl = 1;
    u64 size = ARG(1);
    u32 firstid = kern_next_id;
    void *h = iso_alloc_new_zone(size);
    if(size > 65536) {
        if(h)
            V("bad-zone", "a zone for chunks of %llu bytes, which no zone can hold, was granted (handle %#llx)", UL(size), UL((u64) h));
        zn->busy_excl = 0;
        return;
    }
    if(!h) {
        if(!fault_now())
            V("null", "a zone for chunks of %llu bytes was refused", UL(size));
        zn->busy_excl = 0;
        return;
    }
    if(recording == 1)
        if(MASK_PTRS) rec(3, (u64) h);
    *zn = (zone_t){.h = h, .busy_excl = 1, .req = size, .chunk = round32(size)};
    zn->adv = iso_zone_chunk_count(h);
    if(zn->adv == 0 || zn->adv > ZONE_BYTES / zn->chunk)
        V("zone-count", "a zone of %llu byte chunks advertises %llu chunks", UL(zn->chunk), UL(zn->adv));
    for(int i = 0; i < nvma; i++)
        if(vma[i].id >= firstid && vma[i].op == cur->in_op && vma[i].end - vma[i].start == ZONE_BYTES && (vma[i].prot & PROT_WRITE) &&
           !region(vma[i].id)->known && region(vma[i].id)->zone < 0) {
            zn->region = vma[i].id;
            region_t *r = region(vma[i].id);
            r->known = 1;
            r->start = vma[i].start;
            r->zone = z;
            r->chunk = zn->chunk;
            r->cpu = op_cpus[cur->in_op >= 0 ? cur->in_op : MAXOPS];
        }
    for(int i = 0; i < nvma; i++) /* everything that was mapped for it: its pages, tags, bitmap and their guard pages */
        if(vma[i].id >= firstid && vma[i].op == cur->in_op && (!zn->nids || zn->ids[zn->nids - 1] != vma[i].id) && zn->nids < 8)
            zn->ids[zn->nids++] = vma[i].id;
    if(ARG(2) & 1) {
        kern_named_at = kern_named_len = 0;
        u64 done0 = res->ops_done;
        int quiet = !others_in_call();
        iso_alloc_name_zone(h, "a zone of the program's");
        if(zn->region && kern_named_len && quiet && !others_in_call() && done0 == res->ops_done && (kern_named_at != region(zn->region)->start || kern_named_len != ZONE_BYTES))
            V("isolation", "naming a private zone at %#llx named the %llu bytes at %#llx", UL(region(zn->region)->start), UL(kern_named_len), UL(kern_named_at));
    }
    zn->live = 1;
    zn->busy_excl = 0;
}
static node_t *zone_alloc(int z, int tagged, u64 seen) {
    zone_t *zn = &zones[z];
    u64 done0 = res->ops_done;
    /* configured to abort where it would return NULL */
    int may_abort = feat.abort_null && ((u64) zn->nlive + QUAR_SZ + 1 >= zn->adv || others_in_call());
    expect_abort += may_abort;
    void *p = tagged ? iso_alloc_from_zone_tagged(zn->h) : iso_alloc_from_zone(zn->h);
    expect_abort -= may_abort;
    if(!p) {
        u64 sure, maybe;
        zone_occupancy(z, &sure, &maybe);
        PROBE(nullret);
        PROBE(exhaust);
        if(fault_now() || others_in_call() || res->ops_done != done0) /* it may have been full for a moment */
            return NULL;
        if(feat.cpu_pin && !(region(zn->region)->cpu & op_cpus[cur->in_op >= 0 ? cur->in_op : MAXOPS]))
            return NULL;
        if(feat.cpu_pin && plan->cpus > 1)
            return NULL;
        if(maybe < zn->adv)
            V("zone-capacity", "a zone that advertises %llu chunks returned NULL with %llu of them in use", UL(zn->adv), UL(maybe));
        return NULL;
    }
    u64 raw = (u64) p;
    node_t *n = accept((void *) untag(raw), zn->req ? zn->req : 1, z, "alloc_from_zone");
    zn->nlive++;
    if(tagged && feat.tagging) {
        n->tagged = 1;
        n->tag = (u8) (raw >> 56);
        n->tagknown = 1;
        if(recording && n->region >= rec_id0)
            rec(4, n->tag);
    }
    return n;
}
static void op_zalloc(op_t *o) {
    int z = (int) (ARG(0) % MAXZONES);
    zone_t *zn = zone_take(z);
    if(!zn)
        return;
    slot_t *s = slot_take(ARG(1), 0);
    if(s) {
        node_t *n = zone_alloc(z, (ARG(2) & 2) && feat.tagging, 0);
        if(n)
            settle_new(n, ARG(2) & 5, zn->req ? zn->req : 1);
        slot_put(s, n);
    }
    zn->nbusy--;
}
#if HEAP_PROFILER
extern uint64_t _alloc_sampled_count __attribute__((weak));
static struct { u64 chunk, need; } pfull[8];
/* a zone of this chunk size is full: samples taken now count it */
static void prof_full(u64 chunk) {
    int k = 0;
    while(k < 8 && pfull[k].chunk && pfull[k].chunk != chunk)
        k++;
    if(k == 8 || &_alloc_sampled_count == NULL)
        return;
    pfull[k].chunk = chunk;
    u64 s0 = _alloc_sampled_count;
    for(int i = 0; i < 6; i++) {
        void *p = iso_alloc(40 + 8 * (u64) i);
        node_t *n = accept(p, 40 + 8 * (u64) i, -1, "malloc");
        settle_new(n, 4, n->req);
        do_free(n, 0);
    }
    pfull[k].need += _alloc_sampled_count - s0;
}
#endif
static void op_zfill(op_t *o) {
    int z = (int) (ARG(0) % MAXZONES);
    group_t *g = &groups[ARG(1) % MAXGROUPS];
    if(g->busy || g->n)
        return;
    zone_t *zn = zone_take(z);
    if(!zn)
        return;
    g->busy = 1;
    u64 limit = ARG(2) ? ARG(2) : 1 << 20, k = 0;
    for(; k < limit; k++) {
        node_t *n = zone_alloc(z, 0, k);
        if(!n)
            break;
        settle_new(n, (k % 61 == 0) | 4, zn->req ? zn->req : 1);
        if(g->n == g->cap) {
            g->cap = g->cap ? g->cap * 2 : 256;
            g->v = realloc(g->v, g->cap * sizeof *g->v);
        }
        g->v[g->n++] = n;
    }
#if RANDOMIZE_FREELIST
    if(plan->nthreads == 1 && !zn->nfreed && g->n > 96 && zn->nlive >= (long) g->n) { /* fresh chunks of a zone less than half full */
        u32 next = 0, all = 0, before = (u32) zn->nlive - g->n;
        for(u32 i = 1; i < g->n && before + i < zn->adv / 2; i++, all++)
            next += g->v[i]->s == g->v[i - 1]->s + zn->chunk || g->v[i]->s + zn->chunk == g->v[i - 1]->s;
        if(all >= 64 && next * 3 > all)
            V("predictable", "%u of %u fresh chunks of a zone were handed out next to the one before them", next, all);
        u32 run = 0; /* neither while one slot cache lasts */
        for(u32 i = 1; i < g->n && before + i < zn->adv / 2; i++)
            if((run = g->v[i]->s == g->v[i - 1]->s + zn->chunk || g->v[i]->s + zn->chunk == g->v[i - 1]->s ? run + 1 : 0) > 24)
                V("predictable", "%u fresh chunks of a zone were handed out one after the other in the order of their addresses", run + 1);
    }
#endif
#if HEAP_PROFILER
    if(plan->nthreads == 1 && g->n > 1 && zn->chunk && g->n >= ZONE_BYTES / zn->chunk * 9 / 10)
        prof_full(zn->chunk);
#endif
    zn->nbusy--;
    g->busy = 0;
}
static u64 zcycles; /* private zones destroyed so far */
static void op_zdestroy(op_t *o) {
    int z = (int) (ARG(0) % MAXZONES);
    zone_t *zn = &zones[z];
    if(!zn->live || zn->destroying || zn->busy_excl || zn->nbusy || zone_group_busy(z))
        return;
    zn->destroying = 1;
    PROBE(zdestroy);
    u32 id = zn->region, nids = zn->nids, ids[8];
    memcpy(ids, zn->ids, sizeof ids);
    void *h = zn->h;
    zone_drop_nodes(z);
    flush_begin();
    u64 started = ++ev;
    iso_alloc_destroy_zone(h);
    zcycles++;
    flush_done(started);
    if(id && !munmap_faulted())
        for(int i = 0; i < nvma; i++)
            for(u32 k = 0; k < nids; k++)
                if(vma[i].id == ids[k])
                    V("zone-leak", "after its zone was destroyed %llu bytes at %#llx of what was mapped for it are still mapped (protection %u)",
                      UL(vma[i].end - vma[i].start), UL(vma[i].start), vma[i].prot);
    if(id)
        region(id)->gone = 1;
    memset(zn, 0, sizeof *zn);
}

/* ---------------------------------------------------------------- whole-heap calls */
static void do_flush(void) {
    if(!heap_ready)
        return;
    flush_begin();
    u64 started = ++ev;
    iso_flush_caches();
    flush_done(started);
}
static void walk_settle(node_t *n, void *a) {
    if(n->state == N_QUAR && drain_certain(n))
        n->state = N_FREED;
}
static void op_flush(op_t *o) { do_flush(); }
static void op_verify(op_t *o) {
    if(!heap_ready)
        return;
    if(others_in_call())
        PROBE(midverify);
    iso_verify_zones();
}
static void op_verifyz(op_t *o) {
    zone_t *z = zone_take(ARG(0));
    if(!z)
        return;
    iso_verify_zone(z->h);
    z->nbusy--;
}

typedef struct { u64 lo, hi; int zone; u32 reg; } leak_t;
static void walk_leak(node_t *n, void *a) {
    leak_t *l = a;
    if(n->sampled || (l->zone >= 0 && (n->zone != l->zone || n->region != l->reg)))
        return;
    u64 v = 1;
    if(n->big) {
        bigrec_t *b = big_of(n->region);
        v = b ? b->size : 0;
    }
    if(n->state == N_LIVE || n->state == N_MOVING) {
        l->lo += v;
        l->hi += v;
    } else if(n->state == N_QUAR) {
        if(!drain_possible(n))
            l->lo += v;
        if(!drain_certain(n))
            l->hi += v;
    }
}
static void leak_equality(const char *when) {
    if(!feat.leak || !(plan->flags & RF_STRICT_LEAK))
        return;
    leak_t l = {0, 0, -1, 0};
    nd_walk(root, walk_leak, &l);
    u64 got = iso_alloc_detect_leaks();
    if(got < l.lo || got > l.hi)
        V("leak-report", "%s: the leak report is %llu, expected %llu%s", when, UL(got), UL(l.lo), l.lo == l.hi ? "" : " or a little more");
}
static void op_leaks(op_t *o) {
    if(!heap_ready)
        return;
    if(ARG(0) & 1)
        do_flush();
    leak_equality(ARG(0) & 1 ? "after a flush" : "without a flush");
}
static void op_zleaks(op_t *o) {
    int z = (int) (ARG(0) % MAXZONES);
    zone_t *zn = zone_take(z);
    if(!zn)
        return;
    leak_t l = {0, 0, z, zn->region};
    nd_walk(root, walk_leak, &l);
    u64 got = iso_alloc_detect_zone_leaks(zn->h);
    if(feat.leak && (got < l.lo || got > l.hi))
        V("leak-report", "the leak report of a private zone is %llu, expected %llu to %llu", UL(got), UL(l.lo), UL(l.hi));
    zn->nbusy--;
}
/* reports asked for while other threads allocate and free: the answer must cover at least what was there throughout */
static u32 report_mark;
static void walk_mark(node_t *n, void *a) {
    if(n->state == N_LIVE)
        n->mark = *(u32 *) a;
}
typedef struct { leak_t l; u32 mark; } mleak_t;
static void walk_marked(node_t *n, void *a) {
    mleak_t *m = a;
    if(n->state == N_LIVE && n->mark == m->mark)
        walk_leak(n, &m->l);
}
static int usable_zone_vma(vma_t *v) {
    return v->end - v->start == ZONE_BYTES && (v->prot & PROT_WRITE) && region(v->id)->kind != 1 && !v->big;
}
static void report_traces(void);
static void op_report(op_t *o) {
    if(!heap_ready)
        return;
    if(others_in_call())
        PROBE(midreport);
    u32 mark = ++report_mark;
    switch(ARG(0) % 6) {
    case 0: case 1: {
        u32 *ids = malloc(sizeof(u32) * (size_t) (nvma + 1));
        int nids = 0;
        u64 kept = 0;
        for(int i = 0; i < nvma; i++)
            if(usable_zone_vma(&vma[i]) && region(vma[i].id)->known)
                ids[nids++] = vma[i].id;
        u64 got = iso_alloc_mem_usage();
        for(int i = 0, k = 0; i < nvma; i++)
            if(usable_zone_vma(&vma[i]))
                for(k = 0; k < nids; k++)
                    if(ids[k] == vma[i].id) {
                        kept++;
                        break;
                    }
        free(ids);
        if(!munmap_faulted() && got < kept * ZONE_BYTES >> 20)
            V("usage", "reported memory use is %llu MB although %llu zones were mapped throughout", UL(got), UL(kept));
        break;
    }
    case 2: {
        nd_walk(root, walk_mark, &mark);
        u64 got = iso_alloc_detect_leaks();
        mleak_t m = {{0, 0, -1, 0}, mark};
        nd_walk(root, walk_marked, &m);
        if(feat.leak && got < m.l.lo)
            V("leak-report", "the leak report is %llu although %llu were live throughout", UL(got), UL(m.l.lo));
        break;
    }
    case 3: {
        int z = (int) (ARG(1) % MAXZONES);
        zone_t *zn = zone_take(z);
        if(!zn)
            break;
        nd_walk(root, walk_mark, &mark);
        mleak_t m = {{0, 0, z, zn->region}, mark};
        u64 got = iso_alloc_detect_zone_leaks(zn->h);
        nd_walk(root, walk_marked, &m);
        if(feat.leak && (got < m.l.lo || (zn->chunk && got > ZONE_BYTES / zn->chunk)))
            V("leak-report", "the leak report of a private zone is %llu although %llu were live throughout", UL(got), UL(m.l.lo));
        zn->nbusy--;
        break;
    }
    case 4: {
        zone_t *zn = zone_take((int) (ARG(1) % MAXZONES));
        if(!zn)
            break;
        u64 got = iso_alloc_zone_mem_usage(zn->h);
        if(got != 4)
            V("usage", "a private zone reports %llu MB", UL(got));
        zn->nbusy--;
        break;
    }
    case 5: report_traces(); break;
    }
}
static u64 count_zone_vmas(void) {
    u64 n = 0;
    for(int i = 0; i < nvma; i++)
        if(usable_zone_vma(&vma[i]))
            n++;
    return n;
}
static void op_usage(op_t *o) {
    if(!heap_ready)
        return;
    do_flush();
    if(munmap_faulted())
        return;
    u64 nz = count_zone_vmas(), used = 0, cached = 0;
    for(u32 i = 0; i < nbigs; i++) {
        bigrec_t *b = &bigs[i];
        if(b->dead || b->perm || !vma_exists(b->user))
            continue;
        u64 t = b->size + 3 * PAGE + (feat.meta_guard ? 2 * PAGE : 0);
        node_t *n = nd_from(b->s);
        if(n && n->s == b->s && n->state == N_LIVE)
            used += t;
        else
            cached += t;
    }
    u64 maps = 0; /* two bits for every chunk */
    for(int i = 0; i < nvma; i++)
        if(usable_zone_vma(&vma[i]) && region(vma[i].id)->known && region(vma[i].id)->chunk)
            maps += ZONE_BYTES / region(vma[i].id)->chunk / 4;
    u64 lo = ((nz * ZONE_BYTES + maps) >> 20) + (used >> 20) + (cached >> 20);
    u64 hi = (nz * (ZONE_BYTES + 65536) >> 20) + (used >> 20) + (cached >> 20) + 1;
    u64 got = iso_alloc_mem_usage();
    if(got < lo || got > hi)
        V("usage", "reported memory use is %llu MB, expected %llu to %llu (%llu zones, %llu bytes large in use, %llu cached)", UL(got), UL(lo), UL(hi),
          UL(nz), UL(used), UL(cached));
    for(int z = 0; z < MAXZONES; z++)
        if(zones[z].live && iso_alloc_zone_mem_usage(zones[z].h) != 4)
            V("usage", "a private zone reports %llu MB", UL(iso_alloc_zone_mem_usage(zones[z].h)));
}

/* ---------------------------------------------------------------- bulk work */
static void g_push(group_t *g, node_t *n) {
    if(g->n == g->cap) {
        g->cap = g->cap ? g->cap * 2 : 256;
        g->v = realloc(g->v, g->cap * sizeof *g->v);
    }
    g->v[g->n++] = n;
}
static void op_bulk(op_t *o) {
    group_t *g = &groups[ARG(0) % MAXGROUPS];
    if(g->busy)
        return;
    g->busy = 1;
    u64 cnt = ARG(1), size = ARG(2), fl = ARG(3);
    for(u64 i = 0; i < cnt && live_bytes < (1ULL << 30); i++) {
        void *p = call_malloc(size, fl & ~5ULL);
        if(!p) {
            check_null(size, "malloc");
            break;
        }
        node_t *n = accept(p, size, -1, "malloc");
        settle_new(n, (fl & 6) | ((fl & 1) && i % 37 == 0), size);
        g_push(g, n);
    }
    g->busy = 0;
}
static void op_bulkfree(op_t *o) {
    group_t *g = &groups[ARG(0) % MAXGROUPS];
    if(g->busy)
        return;
    g->busy = 1;
    int how = (int) ARG(1);
    u64 mod = ARG(2) ? ARG(2) : 1;
    rng_t r = {op_seedbase};
    if(ARG(3) & 1)
        for(u32 i = g->n; i > 1; i--) {
            u32 j = (u32) rndn(&r, i);
            node_t *t = g->v[i - 1];
            g->v[i - 1] = g->v[j];
            g->v[j] = t;
        }
    u32 k = 0, total = g->n;
    for(u32 i = 0; i < total; i++) {
        node_t *n = g->v[i];
        if(i % mod == 0) {
            g->v[i] = NULL;
            do_free(n, how);
        }
    }
    for(u32 i = 0; i < total; i++)
        if(g->v[i])
            g->v[k++] = g->v[i];
    g->n = k;
    g->busy = 0;
}
static void op_churn(op_t *o) {
    u64 cnt = ARG(0), size = ARG(1), win = ARG(2) % 65, spread = ARG(3);
    int how = (int) ARG(4);
    node_t *w[65] = {0};
    rng_t r = {op_seedbase};
    u32 at = 0;
    if(win < 1)
        win = 1;
    for(u64 i = 0; i < cnt; i++) {
        u64 sz = size + (spread ? rndn(&r, spread + 1) : 0);
        if(sz > 1ULL << 30)
            sz = (sz & ((1ULL << 30) - 1)) + 1;
        if(w[at]) {
            node_t *old = w[at];
            w[at] = NULL;
            do_free(old, how);
        }
        void *p = call_malloc(sz, 0);
        if(!p) {
            check_null(sz, "malloc");
            break;
        }
        node_t *n = accept(p, sz, -1, "malloc");
        settle_new(n, (i % 97 == 0) | 4, sz);
        w[at] = n;
        at = (at + 1) % (u32) win;
    }
    for(u32 i = 0; i < 65; i++)
        if(w[i])
            do_free(w[i], how);
}

/* ---------------------------------------------------------------- threads, root protection */
static void op_tend(op_t *o) {
    tls_reset(cur);
    PROBE(threadexit);
}
static void op_protect(op_t *o) {
    if(!heap_ready || !feat.threads)
        return;
    int before = 0, after = 0;
    for(int i = 0; i < nvma; i++)
        before += vma[i].prot == PROT_NONE;
    /* let some of the following allocations be under way when the heap is protected */
    if(ARG(1)) {
        sched_window((int) ARG(0));
        preempt_here((u32) ARG(2) | 1);
        while(!sched_all_allocating())
            preempt_here(3000000);
        root_closed = 1;
        if(others_in_call())
            PROBE(midprotect);
    }
    protecting = 1;
    iso_alloc_protect_root();
    protecting = 0;
    for(int i = 0; i < nvma; i++)
        after += vma[i].prot == PROT_NONE;
    if(after <= before && kern_mapped() && !munmap_faulted()) {
        u64 none = 0;
        for(int i = 0; i < nvma; i++)
            none += vma[i].prot == PROT_NONE ? vma[i].end - vma[i].start : 0;
        (void) none;
    }
    u64 d0 = accepted;
    sched_open_window((int) ARG(0));
    if(accepted != d0)
        V("root-protect", "an allocation completed while the heap was protected");
    if(sched_window_waiters())
        PROBE(protblock);
    iso_alloc_unprotect_root();
    root_closed = 0;
}

/* ---------------------------------------------------------------- arguments that must be harmless or refused */
static void op_null(op_t *o) {
    iso_free(NULL);
    iso_free_size(NULL, ARG(0));
    iso_free_permanently(NULL);
    hook_free(NULL);
    if(cxx_delete) {
        cxx_delete(0, NULL, 0, 8);
        cxx_delete(8, NULL, 5, 8);
    }
    if(iso_chunksz(NULL) != 0 || hook_malloc_usable_size(NULL) != 0)
        V("null-arg", "the size of NULL is not zero");
    if(iso_strdup(NULL) || iso_strndup(NULL, 8))
        V("null-arg", "duplicating NULL returned a block");
    if(iso_realloc(NULL, 0))
        V("null-arg", "realloc(NULL, 0) returned a block");
    if(!heap_ready)
        return;
    if(iso_alloc_from_zone(NULL) || iso_alloc_from_zone_tagged(NULL))
        V("null-arg", "allocating from a NULL zone returned a block");
    iso_alloc_destroy_zone(NULL);
    iso_verify_zone(NULL);
    if(iso_alloc_detect_zone_leaks(NULL) || iso_alloc_zone_mem_usage(NULL))
        V("null-arg", "a NULL zone reports leaks or memory");
    iso_alloc_name_zone(NULL, "x");
    if(iso_zone_chunk_count(NULL))
        V("null-arg", "a NULL zone advertises chunks");
    slot_t *s = slot_take(ARG(1), 1);
    void *q = s ? (void *) s->n->s : NULL;
    if(iso_alloc_tag_ptr(q, NULL) || iso_alloc_untag_ptr(q, NULL) || iso_alloc_get_mem_tag(q, NULL))
        V("null-arg", "a pointer was tagged by a NULL zone");
    iso_alloc_verify_ptr_tag(q, NULL);
    if(s) { /* a NULL zone handle: the call does nothing */
        iso_free_from_zone((void *) s->n->s, NULL);
        iso_free_from_zone_permanently((void *) s->n->s, NULL);
        check_node(s->n, "after a free through a NULL zone");
        slot_put(s, s->n);
    }
    zone_t *z = zone_take(ARG(0));
    if(z) {
        iso_free_from_zone(NULL, z->h);
        iso_free_from_zone_permanently(NULL, z->h);
        z->nbusy--;
    }
}

static u64 odd_size(u64 v) { /* sizes above the cap, or whose rounding wraps */
    switch(v % 8) {
    case 0: return UINT64_MAX - (v >> 3) % 4200;
    case 1: return (1ULL << 63) + (v >> 3) % 64 - 32;
    case 2: return (4ULL << 30) + 1 + (v >> 3) % 8192;
    case 3: return (1ULL << 40) + (v >> 3) % 64;
    case 4: return UINT64_MAX - (v >> 3) % 32;
    case 5: return (1ULL << 47) + (v >> 3) % 4096;
    case 6: return (u64) INT64_MAX - (v >> 3) % 64;
    default: return (8ULL << 30) + (v >> 3) % 64;
    }
}
typedef struct { op_t *o; void *p; int zone; node_t *n; u64 x; slot_t *s; } pc_t;
static void impossible(void *a) {
    pc_t *c = a;
    op_t *o = c->o;
    u64 v = ARG(1), big = odd_size(v);
    void *r = NULL;
    const char *what = "?";
    u64 q = (v >> 16) % 64 + 2;
    switch(ARG(0) % 19) {
    case 0: r = iso_alloc(big); what = "iso_alloc"; break;
    case 1: r = hook_malloc(big); what = "malloc"; break;
    case 2: r = iso_calloc(1, big); what = "calloc(1, n)"; break;
    case 3: r = iso_calloc(big, 1 + v % 64); what = "calloc(n, k)"; break;
    case 4: r = iso_calloc(UINT64_MAX / q + 1 + v % 3, q); what = "calloc overflow"; break;
    case 5: r = iso_calloc(1ULL << 32, 1ULL << 32); what = "calloc 2^32*2^32"; break;
    case 6: r = iso_realloc(c->p, big); what = "realloc"; break;
    case 7: r = iso_reallocarray(c->p, UINT64_MAX / q + 1, q); what = "reallocarray overflow"; break;
    case 8: r = iso_reallocarray(c->p, 1ULL << 32, 1ULL << 32); what = "reallocarray 2^64"; break;
    case 9: r = hook_calloc(UINT64_MAX / q + 1 + v % 3, q); what = "hook calloc overflow"; break;
    case 10: r = v & 8 ? old_realloc(c->p, big) : hook_realloc(c->p, big); what = "hook realloc"; break;
    case 11: {
        void *out = (void *) 8;
        int e = hook_posix_memalign(&out, 16, big);
        if(e == 0)
            V("impossible", "posix_memalign of %#llx bytes reported success", UL(big));
        else if(e != ENOMEM && e != EINVAL)
            V("errno", "posix_memalign failed with %d", e);
        what = "posix_memalign";
        break;
    }
    case 12:
        if(cxx_new) {
            void *out = NULL;
            static const int w[] = {0, 1, 4, 5};
            int k = w[v % 4];
            int threw = cxx_new(k, big, 16, &out);
            r = out;
            what = "operator new";
            if(!threw && !out)
                V("cxx", "a failing throwing operator new returned NULL instead of throwing");
        }
        break;
    case 13:
        if(cxx_new) {
            void *out = NULL;
            static const int w[] = {2, 3, 6, 7};
            int threw = cxx_new(w[v % 4], big, 16, &out);
            r = out;
            what = "nothrow operator new";
            if(threw)
                V("cxx", "a failing nothrow operator new threw");
        }
        break;
    case 14: r = hook_reallocarray(c->p, UINT64_MAX / q + 1, q); what = "hook reallocarray overflow"; break;
    case 15: r = hook___libc_reallocarray(c->p, (1ULL << 32) + v % 7, 1ULL << 32); what = "__libc_reallocarray 2^64"; break;
    case 16: r = hook___libc_calloc((1ULL << 32) + v % 7, 1ULL << 32); what = "__libc_calloc 2^64"; break;
    case 17: r = v & 8 ? hook___libc_malloc(big) : hook___libc_realloc(c->p, big); what = "__libc_malloc or __libc_realloc"; break;
    case 18: r = v & 8 ? hook_memalign(64, big) : v & 16 ? hook_aligned_alloc(64, big) : hook___libc_memalign(64, big); what = "memalign"; break;
    }
    if(r)
        V("impossible", "%s with %#llx returned the block %#llx", what, UL(big), UL((u64) r));
}
static void op_impossible(op_t *o) {
    if(!heap_ready && ARG(0) % 19 > 5)
        return;
    slot_t *s = NULL;
    u64 k = ARG(0) % 19;
    if(k == 6 || k == 7 || k == 8 || k == 10 || k == 14 || k == 15 || k == 17)
        s = slot_take(ARG(2), 1);
    pc_t c = {.o = o, .p = s ? (void *) s->n->s : NULL};
    if(feat.abort_null)
        probe_run(impossible, &c, 1, "impossible request");
    else
        impossible(&c);
    if(s) {
        check_node(s->n, "after a refused resize");
        slot_put(s, s->n);
    }
}

static void op_zero(op_t *o) {
    if(!feat.zero_page)
        return;
    int k = (int) (ARG(0) % 4);
    void *p = k == 1 ? hook_malloc(0) : k == 2 ? hook___libc_malloc(0) : iso_alloc(0);
    check_zero(p);
    if(iso_chunksz(p) != 0)
        V("zero", "a zero-size block reports %llu bytes", UL(iso_chunksz(p)));
    for(u64 i = 0; i < ARG(1) % 4; i++) {
        if(i & 1)
            iso_free_size(p, 0);
        else
            iso_free(p);
    }
    if(ARG(2) & 1)
        iso_free_permanently(p);
    if(ARG(2) & 2) {
        slot_t *s = slot_take(ARG(3), 0);
        if(s) {
            void *q = iso_realloc(p, 48);
            if(!q)
                check_null(48, "realloc");
            node_t *n = q ? accept(q, 48, -1, "realloc") : NULL;
            if(n)
                settle_new(n, 1, 48);
            slot_put(s, n);
        }
    }
    check_zero(iso_alloc(0));
}

/* ---------------------------------------------------------------- deliberate misuse, in a forked copy of the run */
static void settle_queue(u64 x, u8 **fill, int nfill, void *scratch) {
    u64 how = x >> 48 & 15;
    if(how < 4 && nfill) { /* the queue fills up */
        for(int i = 0; i < nfill; i++)
            iso_free(fill[i]);
    } else if(how == 4 && scratch)
        iso_alloc_destroy_zone(scratch);
    else if(how < 7) { /* the heap is destroyed with any number of entries queued */
        for(int i = 0; i < nfill && i < (int) (x >> 52 & 63); i++)
            iso_free(fill[i]);
        destroying = 1;
        iso_alloc_destroy();
        return;
    } else
        iso_flush_caches();
}
static void misuse(void *a) {
    pc_t *c = a;
    op_t *o = c->o;
    node_t *n = c->n;
    u8 *p = n ? (u8 *) n->s : NULL;
    u64 x = c->x, req = n ? n->req : 0, rep = n ? iso_chunksz(p) : 0;
    u64 off = n && rep > 16 ? 8 + 8 * (x % (rep / 8 - 1)) : 8;
    void *zh = n && n->zone >= 0 ? zones[n->zone].h : NULL;
    u64 dsz = req ? req : 1;
    u8 *fl[QUAR_SZ + 1];
    int nfl = 0;
    void *scratch = NULL;
    if((x >> 48 & 15) < 7 && !fault_now()) { /* blocks to fill the queue with later: none may be taken between the misuse and the drain */
        scratch = iso_alloc_new_zone(64);
        for(int i = 0; scratch && i < QUAR_SZ + 1; i++)
            if((fl[nfl] = iso_alloc_from_zone(scratch)))
                nfl++;
    }
    if(n && ARG(0) != 25)
        n->state = N_FREED; /* given up by the caller */
    if(ARG(0) == 16)
        zone_drop_nodes(n->zone);
    switch(ARG(0)) {
    case 0: iso_free(p); iso_free(p); break;
    case 1: iso_free_size(p, dsz); iso_free(p); break;
    case 2: iso_free_size(p, dsz); iso_free_size(p, dsz); break;
    case 3: iso_free(p + off); break;
    case 4: iso_free(p + 1 + x % 7); break;
    case 5: {
        static u64 outside[64];
        void *targets[] = {outside + 8, &c, malloc(64), (void *) (u64) 0x10000, (void *) ((u64) p + (64ULL << 30)), (void *) 0x7ffffffff000};
        void *t = targets[x % 6];
        switch(x >> 8 & 7) {
        case 0: iso_free_size(t, 16); break;
        case 1: iso_free_size(t, 100000); break;
        case 2: iso_free_permanently(t); break;
        case 3: zh ? iso_free_from_zone(t, zh) : iso_free(t); break;
        case 4: hook_free(t); break;
        default: iso_free(t); break;
        }
        break;
    }
    case 6: iso_free_permanently(p); iso_free_permanently(p); break;
    case 7: iso_free_permanently(p); iso_free(p); break;
    case 8: iso_free_permanently(p); iso_free_size(p, dsz); break;
    case 9: iso_free(p); iso_free_permanently(p); break;
    case 10:
        if(cxx_delete && x >> 9 & 3)
            cxx_delete(8 + (int) (x >> 11 & 1), p, rep + 1 + x % 512, 32);
        else
            iso_free_size(p, rep + 1 + x % 512);
        break;
    case 11: iso_free_size(p + off, off < req ? (req - off > 8 ? 8 : req - off) : 1); break;
    case 12: iso_free_from_zone(p + off, zh); break;
    case 13: iso_free_permanently(p + off); break;
    case 14: iso_free_size(iso_alloc(0), 1 + x % 100000); break;
    case 15: {
        void *q = iso_realloc(p, req + 100);
        (void) q;
        iso_free(p);
        break;
    }
    case 16: iso_alloc_destroy_zone(zh); iso_free(p); break;
    case 17: { /* chunks the zone never issued: decoys and never-used ones */
        void *h = iso_alloc_new_zone(32 << (x % 8));
        if(!h)
            sim_internal("no zone for probe");
        u8 *f = iso_alloc_from_zone(h);
        u64 chunk = 32ULL << (x % 8), cnt = iso_zone_chunk_count(h);
        int vi = vma_find((u64) f);
        u8 *base = (u8 *) vma[vi].start;
        u64 total = ZONE_BYTES / chunk;
        u8 *used = calloc(total, 1);
        used[(u64) (f - base) / chunk] = 1;
        for(u64 i = 1; i < cnt * 4; i++) {
            u8 *q = iso_alloc_from_zone(h);
            if(!q)
                break;
            used[(u64) (q - base) / chunk] = 1;
        }
        u64 pick = x % total;
        for(u64 i = 0; i < total; i++)
            if(!used[(pick + i) % total]) {
                u8 *q = base + (pick + i) % total * chunk;
                PROBE(decoy);
                if(x & (1 << 20))
                    iso_free_from_zone(q, h);
                else if(x & (1 << 21))
                    iso_free_permanently(q);
                else if(x & (1 << 22))
                    iso_free_size(q, 16);
                else
                    iso_free(q);
                break;
            }
        if(!res->probe[P_decoy])
            sim_finish(3);
        break;
    }
    case 18: {
        void *other[24];
        u64 k = 1 + x % 24;
        for(u64 i = 0; i < k; i++)
            other[i] = iso_alloc(16 + 24 * i);
        iso_free(p);
        for(u64 i = 0; i < k; i++)
            iso_free(other[i]);
        iso_free(p);
        break;
    }
    case 19: { /* free through the handle of another zone */
        void *h = iso_alloc_new_zone(32 << (x % 12));
        iso_free_from_zone(p, h);
        break;
    }
    case 20: iso_free(p); iso_free_size(p, dsz); break;
    case 21: hook_free(p); hook___libc_free(p); break;
    case 22: iso_free_from_zone(p, zh); iso_free_from_zone(p, zh); break;
    case 23: iso_free_from_zone_permanently(p, zh); iso_free_from_zone(p, zh); break;
    case 24: { /* second free after a drain, before anything else */
        iso_free(p);
        iso_flush_caches();
        iso_free(p);
        break;
    }
    case 25: { /* size query on something that is not a block */
        static u64 outside[64];
        iso_chunksz(x & 1 ? (void *) (outside + 3) : (void *) ((u64) p + (64ULL << 30)));
        break;
    }
    case 26: { /* the block was permanently freed while its neighbours live on */
        void *h = iso_alloc_new_zone(64);
        u8 *q[40];
        for(int i = 0; i < 40; i++)
            q[i] = iso_alloc_from_zone(h);
        u8 *v = q[x % 40];
        iso_free_from_zone_permanently(v, h);
        for(int i = 0; i < 40; i++)
            if(q[i] != v && (x >> (i % 16) & 1))
                iso_free_from_zone(q[i], h);
        if(x & (1 << 20))
            iso_free_from_zone(v, h);
        else
            iso_free(v);
        break;
    }
    case 27: { /* a resize releases its argument as well */
        u64 other = n->big ? 16 : rep * 2 + 1; /* not served from where the block came from */
        void *q = NULL;
        switch(x >> 8 & 3) {
        case 0: q = iso_realloc(p + off, 8); break;
        case 1: iso_free(p), q = iso_realloc(p, other); break;
        case 2: q = iso_realloc(p, other), q = hook_realloc(p, 0); break;
        default: q = iso_reallocarray(p, 1, other), iso_free(p); break;
        }
        (void) q;
        break;
    }
    }
    settle_queue(x, fl, nfl, scratch);
}
static void op_misuse(op_t *o) {
    if(!heap_ready)
        return;
    int k = (int) ARG(0);
    int needs = !(k == 14 || k == 17 || k == 26);
    slot_t *s = needs ? slot_take(ARG(1), 1) : NULL;
    if(needs && !s)
        return;
    node_t *n = s ? s->n : NULL;
    int ok = 1;
    if(n) {
        if(n->sampled && k != 0 && k != 4)
            ok = 0;
        if((k == 12 || k == 16 || k == 22 || k == 23) && n->zone < 0)
            ok = 0;
        if(n->big && (k == 11 || k == 12 || k == 19))
            ok = 0;
        if(n->big && (k == 15 || k == 10) && n->req > (64 << 20))
            ok = 0;
        if(feat.sane && (k == 15 || k == 18 || k == 5 || k == 25))
            ok = k == 5 || k == 25;
        if(k == 25 && n->big)
            ok = 0;
    }
    if(k == 14 && !feat.zero_page)
        ok = 0;
    if(ok) {
        pc_t c = {.o = o, .n = n, .x = ARG(2)};
        if(n && n->s)
            check_node(n, "before misuse");
        char w[64];
        snprintf(w, sizeof w, "misuse %d (%s block)", k, !n ? "no" : n->big ? "large" : n->zone >= 0 ? "zone" : "small");
        probe_run(misuse, &c, 0, w);
    }
    if(s)
        slot_put(s, s->n);
}

/* ---------------------------------------------------------------- stray writes, in a forked copy of the run */
static void corrupt_small(void *a) {
    pc_t *c = a;
    op_t *o = c->o;
    node_t *n = c->n;
    int z = n->zone;
    void *h = z >= 0 ? zones[z].h : NULL;
    u64 req = n->req, x = ARG(2);
    u64 chunk = iso_chunksz((void *) n->s);
    n->state = N_FREED;
    int trig = (int) ARG(3), perm = (int) (x >> 40 & 1), canary_only = (int) (x >> 41 & 1);
    u8 *t = (u8 *) n->s;
    /* blocks around it, so that a directly adjacent one can be freed */
    enum { M = 300 };
    u8 *m[M + 1];
    int cnt = 0;
    m[cnt++] = t;
    for(int i = 0; i < M; i++) {
        u8 *q = h ? iso_alloc_from_zone(h) : iso_alloc(req ? req : 1);
        if(!q)
            break;
        if(vma_find((u64) q) < 0 || vma[vma_find((u64) q)].end - vma[vma_find((u64) q)].start == PAGE || iso_chunksz(q) != chunk)
            continue;
        m[cnt++] = q;
    }
    int ai = -1, bi = -1;
    int rot = (int) (x >> 8 & 0xff) % cnt;
    for(int i = 0; i < cnt && ai < 0; i++)
        for(int j = 0; j < cnt; j++)
            if(m[(i + rot) % cnt] + chunk == m[j]) {
                ai = (i + rot) % cnt;
                bi = j;
                break;
            }
    if(trig == 2 && ai < 0)
        sim_finish(3);
    int ti = ai >= 0 ? (x & 1 ? ai : bi) : 0;
    u8 *nb = ai >= 0 ? m[x & 1 ? bi : ai] : NULL;
    u8 *p = m[ti];
    u32 pid = vma[vma_find((u64) p)].id;
    (void) canary_only;
    if(perm) {
        if(h && (x >> 42 & 1))
            iso_free_from_zone_permanently(p, h);
        else
            iso_free_permanently(p);
    } else if(x >> 43 & 1) {
        iso_free(p);
        iso_flush_caches();
    } else
        iso_free_size(p, 1);
    if(trig == 5)
        iso_flush_caches(); /* destruction does so first, and may retire the zone then */
    if(vma_find((u64) p) < 0 || vma[vma_find((u64) p)].id != pid || vma[vma_find((u64) p)].prot == PROT_NONE) /* its zone was retired */
        sim_finish(3);
    if(trig == 1 && perm)
        trig = 0;
    if(trig == 4 && !h)
        trig = 0;
    u64 off = x >> 3 & 7;
    u8 *at = x >> 44 & 1 ? p + chunk - 8 + off : p + off;
    *at ^= (u8) (1u << (x >> 45 & 7));
    PROBE(canary_small);
    trace("    chunk %llu at %#llx size %llu, byte %lld, trigger %d\n", UL(n->s), UL((u64) p), UL(chunk), (long long) (at - p), trig);
    switch(trig) {
    case 0: iso_verify_zones(); break;
    case 1:
        for(int i = 0; i < 140000; i++) {
            void *q = h ? iso_alloc_from_zone(h) : iso_alloc(req ? req : 1);
            if(q == p)
                V("canary-missed", "freed block %#llx was handed out again although byte %lld of it had been overwritten", UL((u64) p), (long long) (at - p));
            if(!q)
                break;
        }
        sim_finish(3); /* not reissued: nothing to judge */
        break;
    case 2:
        iso_free_size(nb, 1);
        break;
    case 3:
        if(h)
            iso_verify_zone(h);
        else
            iso_verify_zones();
        break;
    case 5:
        destroying = 1;
        iso_alloc_destroy();
        break;
    default: iso_verify_zones(); break;
    }
}
static void corrupt_decoy(void *a) { /* a decoy block of a fresh zone */
    pc_t *c = a;
    op_t *o = c->o;
    u64 x = ARG(2);
    u64 chunk = 32ULL << (x % 9);
    u32 first = kern_next_id;
    void *h = iso_alloc_new_zone(chunk);
    u8 *base = NULL;
    for(int i = 0; i < nvma; i++)
        if(vma[i].id >= first && vma[i].end - vma[i].start == ZONE_BYTES && (vma[i].prot & PROT_WRITE))
            base = (u8 *) vma[i].start;
    if(!h || !base)
        sim_internal("no zone for probe");
    u64 total = ZONE_BYTES / chunk, pick = (x >> 8) % total;
    for(u64 i = 0; i < total; i++) {
        u8 *p = base + (pick + i) % total * chunk;
        u64 v = *(u64 *) p;
        if(!v)
            continue; /* not a decoy */
        if(*p != 0 || p[chunk - 8] != 0)
            V("canary-byte", "the lowest byte of a decoy's check value is %#x", *p ? *p : p[chunk - 8]);
        u8 *at = x >> 44 & 1 ? p + chunk - 8 + (x >> 3 & 7) : p + (x >> 3 & 7);
        *at ^= (u8) (1u << (x >> 45 & 7));
        PROBE(decoy);
        if(x >> 50 & 1)
            iso_verify_zone(h);
        else
            iso_verify_zones();
        return;
    }
    V("no-decoy", "a fresh zone of %llu chunks has no decoy blocks", UL(total));
}
static void corrupt_big(void *a) {
    pc_t *c = a;
    op_t *o = c->o;
    node_t *n = c->n;
    bigrec_t *b = big_of(n->region);
    u64 x = ARG(2);
    int cached = (int) (x >> 40 & 1);
    n->state = N_FREED;
    if(!b || !b->meta || !vma_rw_of(b->meta))
        sim_finish(3);
    if(cached) {
        iso_free(b->s ? (void *) n->s : NULL);
        iso_flush_caches();
        if(!vma_rw_of(b->meta))
            sim_finish(3); /* retired */
    }
    u64 *q = (u64 *) vma_rw_of(b->meta)->start;
    /* the bookkeeping record sits at any byte offset of its page */
    u8 *pg = (u8 *) q;
    long lo = -1, hi = -1;
    for(long i = 0; i < (long) PAGE; i++)
        if(pg[i]) {
            if(lo < 0)
                lo = i;
            hi = i;
        }
    if(lo < 0)
        V("canary-missed", "the bookkeeping page of large block %#llx is empty", UL(n->s));
    /* the outermost non-zero bytes belong to the boundary fields (a zero end byte of a check value only moves us inwards) */
    u8 *at = x >> 44 & 1 ? pg + hi - (x >> 3 & 3) : pg + lo + (x >> 3 & 3);
    *at ^= (u8) (1u << (x >> 45 & 7));
    PROBE(canary_big);
    switch(ARG(3) % 4) {
    case 0: iso_verify_zones(); break;
    case 1:
        if(cached) {
            void *r = iso_alloc(n->req);
            if((u64) r == n->s)
                V("canary-missed", "large block %#llx with overwritten bookkeeping was handed out again", UL(n->s));
            iso_verify_zones();
        } else
            iso_free_size((void *) n->s, n->req);
        break;
    case 2: iso_verify_zones(); break;
    case 3:
        destroying = 1;
        iso_alloc_destroy();
        break;
    }
}
static void op_corrupt(op_t *o) {
    if(!heap_ready || feat.no_canary)
        return;
    pc_t c = {.o = o, .x = ARG(2)};
    if(ARG(0) == 2) {
        probe_run(corrupt_decoy, &c, 0, "stray write into a decoy block");
        return;
    }
    slot_t *s = slot_take(ARG(1), 1);
    if(!s)
        return;
    c.n = s->n;
    if(s->n->sampled || (feat.sane && plan->knob[K_SANE_ODDS]))
        ;
    else if(s->n->big) {
        if(s->n->req <= (64 << 20))
            probe_run(corrupt_big, &c, 0, "stray write into the bookkeeping of a large block");
    } else
        probe_run(corrupt_small, &c, 0, "stray write into a freed block");
    slot_put(s, s->n);
}

/* ---------------------------------------------------------------- C library and C++ entry points */
static int valid_pow2(u64 a) { return a && !(a & (a - 1)); }
static void op_memalign(op_t *o) {
    slot_t *s = slot_take(ARG(0), 0);
    if(!s)
        return;
    u64 al = ARG(1), size = ARG(2);
    int which = (int) (ARG(3) % 5);
    if(size == 0)
        size = 1;
    u64 need = size;
    begin_big(size < al ? al : size);
    void *p = NULL;
    switch(which) {
    case 0: {
        void *out = (void *) 0x18;
        int e = hook_posix_memalign(&out, al, size);
        cur->big_ctx = 0;
        if(!valid_pow2(al) || al % sizeof(void *)) {
            if(valid_pow2(al) && e == 0) { /* a power of two below the pointer size: accepted here as an extension */
                p = out;
                break;
            }
            if(e != EINVAL)
                V("memalign", "posix_memalign accepted the invalid alignment %llu (result %d)", UL(al), e);
            slot_put(s, NULL);
            return;
        }
        if(e) {
            if(e != ENOMEM)
                V("memalign", "posix_memalign(%llu, %llu) failed with %d", UL(al), UL(size), e);
            check_null(size, "posix_memalign");
            slot_put(s, NULL);
            return;
        }
        p = out;
        break;
    }
    case 1: p = valid_pow2(al) ? hook_memalign(al, size) : NULL; break;
    case 2: p = valid_pow2(al) ? hook_aligned_alloc(al, size = need = (size + al - 1) / al * al) : NULL; break;
    case 3: p = valid_pow2(al) ? (op_seedbase & 64 ? old_memalign(al, size) : hook___libc_memalign(al, size)) : NULL; break;
    case 4:
        if(cxx_new && valid_pow2(al))
            cxx_new(4 + (int) (ARG(4) % 4), size, al, &p);
        break;
    }
    cur->big_ctx = 0;
    if(!p) {
        if(valid_pow2(al) && (which != 4 || cxx_new))
            check_null(size, "memalign");
        slot_put(s, NULL);
        return;
    }
    /* a block obtained through any family obeys the common contract */
    node_t *n = NULL;
    u64 real = size < al && which == 0 ? al : size;
    acc_eff = real;
    n = accept(p, real > 65536 ? real : need, -1, "memalign");
    if((u64) p % al) {
        if(al > 32)
            known(KN_ALIGN, "request %d for alignment %llu returned %#llx", which, UL(al), UL((u64) p));
        else
            V("memalign", "alignment %llu was requested but %#llx returned", UL(al), UL((u64) p));
    }
    settle_new(n, 1, need);
    slot_put(s, n);
}
static void op_hookalloc(op_t *o) {
    slot_t *s = slot_take(ARG(0), 1);
    if(!s)
        return;
    u64 a = hook_malloc_usable_size((void *) s->n->s), b = iso_chunksz((void *) s->n->s);
    if(a != b)
        V("size", "malloc_usable_size says %llu and the native query %llu", UL(a), UL(b));
    set_rep(s->n, a);
    slot_put(s, s->n);
}
static void op_cxxnew(op_t *o) {
    if(!cxx_new)
        return;
    slot_t *s = slot_take(ARG(0), 0);
    if(!s)
        return;
    void *p = NULL;
    u64 size = ARG(2), al = ARG(3) & 1 ? 16 : 32;
    begin_big(size);
    int threw = cxx_new((int) (ARG(1) % 8), size, al, &p);
    cur->big_ctx = 0;
    if(threw || !p) {
        if(fault_now() || size == 0)
            ;
        else
            V("cxx", "operator new(%llu) %s", UL(size), threw ? "threw" : "returned NULL");
        slot_put(s, NULL);
        return;
    }
    if(size == 0 && feat.zero_page) {
        check_zero(p);
        cxx_delete((int) (ARG(1) % 8), p, 0, al);
        slot_put(s, NULL);
        return;
    }
    node_t *n = accept(p, size, -1, "operator new");
    settle_new(n, ARG(3) & 2 ? 1 : 0, size);
    slot_put(s, n);
}

/* ---------------------------------------------------------------- checked memory routines */
static void op_memops(op_t *o) {
    if(!hook_memcpy && !hook_memset)
        return;
    slot_t *s = slot_take(ARG(0), 1);
    if(!s)
        return;
    node_t *n = s->n;
    u64 len = n->e - n->s;
    if(len > 60000)
        len = 60000;
    u8 *p = (u8 *) n->s, *ref = malloc(len + 64), *ext = malloc(len + 64);
    u64 off = ARG(2) % (len + 1), k = ARG(3) % (len - off + 1), off2 = ARG(4) % (len - k + 1);
    check_node(n, "before a memory routine");
    memcpy(ref, p, len);
    str_make((char *) ext, len, op_seedbase);
    void *r = NULL;
    const char *what = "";
    u8 *d = p + off;
    switch(ARG(1) % 6) {
    case 0:
        if(hook_memcpy) {
            r = hook_memcpy(d, ext, k);
            memcpy(ref + off, ext, k);
            what = "memcpy into a block";
        }
        break;
    case 1:
        if(hook_memmove) {
            r = hook_memmove(d, p + off2, k);
            memmove(ref + off, ref + off2, k);
            what = "overlapping memmove";
            if(k)
                PROBE(overlapcopy);
        }
        break;
    case 2:
        if(hook_memset) {
            r = hook_memset(d, (int) (ARG(4) & 0x1ff), k);
            memset(ref + off, (int) (ARG(4) & 0x1ff), k);
            what = "memset";
        }
        break;
    case 3: /* outside the heap */
        if(hook_memmove) {
            memcpy(ref, ext, len);
            r = hook_memmove(ext + off, ext + off2, k);
            memmove(ref + off, ref + off2, k);
            d = ext + off;
            if(memcmp(ref, ext, len))
                V("memcpy", "memmove of %llu bytes outside the heap (from +%llu to +%llu) gave wrong bytes", UL(k), UL(off2), UL(off));
            memcpy(ref, p, len);
            what = "memmove outside the heap";
        }
        break;
    case 4: /* the whole extent is always allowed */
        if(hook_memset) {
            d = p;
            r = hook_memset(p, 0x5a, len);
            memset(ref, 0x5a, len);
            what = "memset of the whole block";
        }
        break;
    case 5:
        if(hook_memcpy) {
            d = ext;
            r = hook_memcpy(ext, p, len);
            if(memcmp(ext, p, len))
                V("memcpy", "copying a block of %llu bytes out of the heap gave wrong bytes", UL(len));
            what = "memcpy out of a block";
        }
        break;
    }
    if(*what) {
        if(r != d)
            V("memcpy", "%s returned %#llx instead of its destination", what, UL((u64) r));
        if(memcmp(ref, p, len)) {
            u64 i = 0;
            while(ref[i] == p[i])
                i++;
            V("memcpy", "%s (%llu bytes to +%llu from +%llu of a block of %llu): byte %llu is %#x, expected %#x", what, UL(k), UL(off), UL(off2), UL(len), UL(i),
              p[i], ref[i]);
        }
    }
    n->seed = next_seed();
    fill(n, n->e - n->s);
    free(ref);
    free(ext);
    slot_put(s, n);
}
static void memover(void *a) {
    pc_t *c = a;
    op_t *o = c->o;
    u64 chunk = iso_chunksz((void *) c->n->s), over = chunk + 1 + ARG(2) % 256;
    static u8 low[1 << 17];
    u8 *big = ARG(2) & 1 ? malloc(1 << 17) : low; /* on either side of the heap */
    u8 *p = (u8 *) c->n->s;
    expect_segv = 1;
    switch(ARG(1) % 5) {
    case 0: hook_memcpy(p, big, over); break;
    case 4: hook_memmove(big, p, over); break;
    case 1: hook_memmove(p, big, over); break;
    case 2:
        if(!hook_memset)
            sim_finish(3);
        hook_memset(p, ARG(2) >> 1 & 1 ? 0 : (int) (ARG(2) >> 2 & 255), over);
        break;
    case 3: hook_memcpy(big, p, over); break;
    }
}
static void op_memover(op_t *o) {
    if(!hook_memcpy || !heap_ready)
        return;
    slot_t *s = slot_take(ARG(0), 1);
    if(!s)
        return;
    node_t *n = s->n;
    if(!n->big && !n->sampled) {
        /* the table is keyed by address window: only judge when no other zone shares the window */
        region_t *r = region(n->region);
        int shared = 0;
        for(int i = 0; i < nvma; i++)
            if(vma[i].id != n->region && vma[i].end - vma[i].start == ZONE_BYTES && (vma[i].prot & PROT_WRITE) && vma[i].start >> 32 >= (r->start >> 32) - 1 &&
               vma[i].start >> 32 <= (r->start >> 32) + 1)
                shared = 1;
        /* ... and only for a block that lies in the window of its zone's first page */
        if(n->s >> 32 != r->start >> 32)
            shared = 1;
        pc_t c = {.o = o, .n = n};
        if(!shared)
            probe_run(memover, &c, 0, "memory routine longer than the block");
    }
    slot_put(s, n);
}

/* ---------------------------------------------------------------- memory tags */
static void tag_check(node_t *n) {
    void *h = zones[n->zone].h, *p = (void *) n->s;
    u8 t = iso_alloc_get_mem_tag(p, h);
    if(n->tagknown && t != n->tag)
        V("tag", "the tag of live chunk %#llx changed from %#x to %#x", UL(n->s), n->tag, t);
    n->tag = t;
    n->tagknown = 1;
    u64 tp = (u64) iso_alloc_tag_ptr(p, h);
    if(tp != (n->s | (u64) t << 56))
        V("tag", "tagging %#llx with tag %#x gave %#llx", UL(n->s), t, UL(tp));
    if((u64) iso_alloc_untag_ptr((void *) tp, h) != n->s)
        V("tag", "untagging %#llx gave %#llx", UL(tp), UL((u64) iso_alloc_untag_ptr((void *) tp, h)));
    iso_alloc_verify_ptr_tag((void *) tp, h);
}
static void op_tagcheck(op_t *o) {
    if(!feat.tagging)
        return;
    slot_t *s = slot_take(ARG(0), 1);
    if(!s)
        return;
    if(s->n->zone >= 0)
        tag_check(s->n);
    slot_put(s, s->n);
}
static void tag_stale(void *a) {
    pc_t *c = a;
    op_t *o = c->o;
    void *h = zones[c->zone].h;
    u64 x = ARG(1);
    int same = 0, k = 0;
    u64 stale = 0;
    if((x >> 16) % 3 == 0) { /* tags are asked for something that is no chunk of the zone */
        u64 p = (u64) iso_alloc_from_zone_tagged(h), size = p ? iso_chunksz((void *) untag(p)) : 0;
        if(!p || vma_find(untag(p)) < 0)
            sim_finish(3);
        vma_t *v = &vma[vma_find(untag(p))];
        u64 bad = untag(p);
        if(v->end - v->start != ZONE_BYTES)
            sim_finish(3);
        switch((x >> 20) % 5) {
        case 0: /* not the start of a chunk */
            bad += size > 32 && x >> 63 ? 32 + ((x >> 24) % (size - 32) & ~31ull) : 1 + (x >> 24) % (size - 1);
            break;
        case 1: bad = v->end; break;
        case 2: bad = v->start - size; break;
        case 3: bad = v->end + size * ((x >> 24) % 65536); break;
        default: bad = (u64) iso_alloc(size); break; /* a block of another zone */
        }
        if(!bad)
            sim_finish(3);
        bad |= p & 0xffull << 56;
        PROBE(tagmisuse);
        switch((x >> 40) % 4) {
        case 0: iso_alloc_get_mem_tag((void *) untag(bad), h); break;
        case 1: iso_alloc_untag_ptr((void *) bad, h); break;
        case 2: iso_alloc_verify_ptr_tag((void *) bad, h); break;
        default: iso_alloc_tag_ptr((void *) untag(bad), h); break;
        }
        return; /* ... and must abort */
    }
    for(; k < 24; k++) {
        u64 p = (u64) iso_alloc_from_zone_tagged(h);
        if(!p)
            sim_finish(3);
        u64 u = untag(p);
        switch((x >> 8) % 6) {
        case 0: iso_free_from_zone((void *) p, h); break;
        case 1: iso_free_size((void *) u, 1); break;
        case 2: iso_free_permanently((void *) u); break;
        case 3: iso_free_from_zone_permanently((void *) p, h); break;
        case 4:
            if(!iso_realloc((void *) u, 70000 + k))
                sim_finish(3);
            break;
        default:
            iso_free((void *) u);
            iso_flush_caches();
        }
        if(vma_find(u) < 0 || vma[vma_find(u)].prot == PROT_NONE) /* the zone was replaced */
            sim_finish(3);
        u8 t = iso_alloc_get_mem_tag((void *) u, h);
        if(t == (u8) (p >> 56))
            same++;
        else
            stale = p;
    }
    if(same == k)
        V("tag", "the tags of %d freed chunks were not drawn afresh", k);
    PROBE(tagstale);
    u64 u = (u64) iso_alloc_untag_ptr((void *) stale, h);
    if(u == untag(stale))
        V("tag", "a stale tagged pointer %#llx still untags to its chunk", UL(stale));
    if(x & 4)
        iso_alloc_verify_ptr_tag((void *) stale, h); /* must abort */
    else
        iso_free_from_zone((void *) stale, h);
}
/* the last chunks of a zone whose number of chunks is no multiple of eight: their tags too are drawn afresh by the free that empties the zone */
static void tag_last(void *a) {
    pc_t *c = a;
    op_t *o = c->o;
    u64 x = ARG(1), size = 16384 + 32 * (x % 1500);
    void *h = iso_alloc_new_zone(size);
    static u64 p[512];
    int rounds = 0, kept = 0;
    if(!h)
        sim_finish(3);
    for(u64 total = 0; rounds < 6;) {
        int n = 0, hi = 0;
        while(n < 512 && (p[n] = (u64) iso_alloc_from_zone(h)))
            n++;
        if(n < 8 || n == 512)
            sim_finish(3);
        total += n;
        for(int i = 0; i < n; i++)
            if(p[i] > p[hi])
                hi = i;
        for(int i = 0; i < n; i++)
            if(i != hi)
                iso_free_from_zone((void *) p[i], h);
        u8 was = iso_alloc_get_mem_tag((void *) p[hi], h);
        iso_free_from_zone((void *) p[hi], h);
        if(total > (u64) n * 10) { /* every emptying now refreshes all tags */
            rounds++;
            kept += iso_alloc_get_mem_tag((void *) p[hi], h) == was;
        }
        if(total > (u64) n * 200)
            sim_finish(3);
    }
    PROBE(taglast);
    if(kept == 6)
        V("tag", "the tag of the last chunk of an emptied zone of %llu byte chunks was not drawn afresh", UL(size));
    iso_alloc_destroy_zone(h);
}
static void op_tagstale(op_t *o) {
    if(!feat.tagging)
        return;
    int z = (int) (ARG(0) % MAXZONES);
    zone_t *zn = zone_take(z);
    if(!zn)
        return;
    pc_t c = {.o = o, .zone = z};
    if((ARG(1) >> 33) % 6 == 0)
        probe_run(tag_last, &c, 1, "tags of the last chunk of a zone");
    else
        probe_run(tag_stale, &c, 0, "stale tagged pointer");
    zn->nbusy--;
}

/* ---------------------------------------------------------------- dangling references */
static void walk_check(node_t *n, void *a) {
    if(n->state == N_LIVE)
        check_node(n, a);
}
static void uaf_zone_end(void *a) { /* the only reference is the last word of a zone */
    pc_t *c = a;
    op_t *o = c->o;
    u64 x = ARG(3), chunk = 8192ULL << (x >> 8 & 3);
    void *h = iso_alloc_new_zone(chunk);
    u8 *hi = NULL, *q;
    if(!h)
        sim_finish(3);
    while((q = iso_alloc_from_zone(h)))
        if(q > hi)
            hi = q;
    int vi = vma_find((u64) hi);
    if(!hi || vi < 0 || vma[vi].end != (u64) hi + chunk)
        sim_finish(3);
    void *volatile *at = (void *volatile *) (hi + chunk - (x >> 12 & 1 ? 8 : 8 + (x >> 13 & 15)));
    u64 size = ARG(1) % 4000 + 1;
    for(int k = 0; k < 24; k++) {
        void *p = iso_alloc(size);
        if(!p)
            sim_finish(3);
        *at = p;
        if(x & 16) {
            iso_free(p);
            iso_flush_caches();
        } else
            iso_free_size(p, size);
        if(*at != p) {
            int i = vma_find((u64) *at);
            if(i < 0 || vma[i].prot != PROT_NONE)
                V("uaf", "the last word of a zone, which held the address of a freed block, was replaced by %#llx", UL((u64) *at));
            PROBE(uafhit);
            sim_finish(3);
        }
    }
    V("uaf", "the pointer search never replaced a dangling word at the end of a zone in 24 frees at odds one in two");
}
static u64 uaf_plant(slot_t *holder, u64 size, u64 offseed, int rounds, int how) {
    node_t *hn = holder->n;
    u64 words = (hn->e - hn->s) / 8;
    for(int k = 0; k < rounds; k++) {
        u64 q = (u64) iso_alloc(size);
        if(!q)
            return 0;
        u64 w = mix64(offseed + (u64) k) % words;
        if(how & 6)
            w = how & 2 ? words - 1 : 0;
        u64 *at = (u64 *) hn->s + w, was = *at;
        *at = q;
        if(how & 1) {
            iso_free((void *) q);
            iso_flush_caches();
        } else if(how & 8)
            iso_free_permanently((void *) q);
        else
            iso_free_size((void *) q, size);
        u64 now = *at;
        *at = was;
        if(now != q) {
            int vi = vma_find(now);
            if(vi < 0 || vma[vi].prot != PROT_NONE)
                V("uaf", "a word holding the address of a freed block was replaced by %#llx, which is %s", UL(now), vi < 0 ? "not mapped" : "accessible");
            return now;
        }
        nd_walk(root, walk_check, "after a free with pointer search");
    }
    return 0;
}
static u64 uaf_addr;
static void op_uafplant(op_t *o) {
    if(!feat.uaf || !heap_ready)
        return;
    if((ARG(3) & 3) == 3 && plan->knob[K_UAF_ODDS] == 2) {
        pc_t c = {.o = o};
        probe_run(uaf_zone_end, &c, 1, "dangling reference at the end of a zone");
        return;
    }
    slot_t *s = slot_take(ARG(0), 1);
    if(!s)
        return;
    node_t *n = s->n;
    if(!n->big && n->e - n->s >= 8 && n->touched) {
        do_flush();
        check_node(n, "before planting a reference");
        u64 r = uaf_plant(s, ARG(1) % 4000 + 1, op_seedbase, plan->knob[K_UAF_ODDS] == 2 ? 40 : 2, (int) ARG(2));
        /* the model did not see these blocks: anything it thought free there is now unknown, which is harmless */
        flush_begin();
        flush_done(++ev);
        if(r) {
            PROBE(uafhit);
            uaf_addr = r;
        } else if(plan->knob[K_UAF_ODDS] == 2)
            V("uaf", "the pointer search never replaced a dangling word in 40 frees at odds one in two");
        nd_walk(root, walk_check, "after a free with pointer search");
    }
    slot_put(s, n);
}
extern const char *expect_diag;
static void uaf_deref(void *a) {
    volatile u8 *p = (volatile u8 *) uaf_addr + op_seedbase % 4096;
    if(feat.sighandler)
        expect_diag = "se after free";
    expect_segv = feat.sighandler ? 0 : 1;
    if(op_seedbase >> 32 & 1)
        *p = 1;
    (void) *p;
}
/* a fault that has nothing to do with the page must not be taken for a use after free */
static void other_fault(void *a) {
    volatile u8 *p = (volatile u8 *) (op_seedbase >> 13 & 1 ? 0 : op_seedbase >> 14 & 1 ? uaf_addr - (64 << 20) - op_seedbase % 4096 : uaf_addr + (64 << 20) + op_seedbase % 4096);
    if(vma_find((u64) p) >= 0)
        sim_finish(3);
    expect_diag = "!se after free";
    (void) *p;
}
static void op_uafderef(op_t *o) {
    if(!uaf_addr)
        return;
    if(feat.sighandler && (op_seedbase >> 40) % 3 == 0)
        probe_run(other_fault, NULL, 0, "an unrelated fault");
    else
        probe_run(uaf_deref, NULL, 0, "use of a poisoned reference");
}

/* ---------------------------------------------------------------- profiler */
#if HEAP_PROFILER
extern uint64_t _alloc_sampled_count __attribute__((weak)), _free_sampled_count __attribute__((weak));
#endif
static u64 prof_base_a, prof_base_f;
#define PATHS 24
/* the return addresses of the frames from the caller of iso_alloc or iso_free outwards */
static u64 cp_chain[12];
static int cp_nchain;
static __attribute__((noinline)) void cp_walk(u64 *fp) {
    for(cp_nchain = 0; fp && cp_nchain < 12; fp = (u64 *) fp[0])
        cp_chain[cp_nchain++] = fp[1];
}
#define CP(i) __attribute__((noinline, visibility("default"))) void *cp_a##i(u64 n) { cp_walk(__builtin_frame_address(0)); void *p = iso_alloc(n); __asm__ volatile("" : : "r"(p) : "memory"); return p; } \
    __attribute__((noinline, visibility("default"))) void cp_f##i(void *p) { cp_walk(__builtin_frame_address(0)); iso_free(p); __asm__ volatile("" : : : "memory"); }
CP(0) CP(1) CP(2) CP(3) CP(4) CP(5) CP(6) CP(7) CP(8) CP(9) CP(10) CP(11)
static void *(*const cp_a[])(u64) = {cp_a0, cp_a1, cp_a2, cp_a3, cp_a4, cp_a5, cp_a6, cp_a7, cp_a8, cp_a9, cp_a10, cp_a11};
static void (*const cp_f[])(void *) = {cp_f0, cp_f1, cp_f2, cp_f3, cp_f4, cp_f5, cp_f6, cp_f7, cp_f8, cp_f9, cp_f10, cp_f11};
static __attribute__((noinline)) void *cp_deep(int n, int which, u64 size) {
    void *r;
    if(n & 1)
        r = cp_deep(n >> 1, which, size);
    else if(n)
        r = cp_deep(n >> 1, which, size);
    else
        r = cp_a[which](size);
    __asm__ volatile("" : : "r"(r) : "memory");
    return r;
}
/* calls f(a) as the outermost frame of a thread would: the chain of frames ends here */
extern void *tramp_call(void *(*f)(u64), u64 a);
extern char tramp_ret[];
__asm__(".text\n.globl tramp_call\n.type tramp_call,@function\ntramp_call:\n push %rbp\n mov %rdi,%rax\n mov %rsi,%rdi\n xor %ebp,%ebp\n call *%rax\n"
        ".globl tramp_ret\ntramp_ret:\n pop %rbp\n ret\n.size tramp_call,.-tramp_call\n");
static __attribute__((noinline)) void *tramp_free(u64 p) {
    cp_walk(__builtin_frame_address(0));
    iso_free((void *) p);
    __asm__ volatile("" : : : "memory");
    return NULL;
}
/* the same code in a page that belongs to no loaded object, as compiled at run time by a program */
#define JIT_AT 0x666600000000ULL
#define JIT_LEN (8 * PAGE)
#define JIT_SITES (JIT_LEN / 64)
typedef void *(*jit_t)(void *(*f)(u64), u64 a);
static jit_t jit_call;
static jit_t jit_site(u64 i) { return (jit_t) (JIT_AT + i % JIT_SITES * 64); }
static void jit_make(void) {
    if(jit_call)
        return;
    void *pg = mmap((void *) JIT_AT, JIT_LEN, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if(pg != (void *) JIT_AT)
        sim_finish(6);
    for(u64 i = 0; i < JIT_SITES; i++)
        memcpy((u8 *) pg + i * 64, (void *) tramp_call, 64);
    jit_call = jit_site(0);
}
#if HEAP_PROFILER
static int in_jit(u64 a) {
    return a >= JIT_AT && a < JIT_AT + JIT_LEN;
}
static iso_alloc_traces_t tr_a[132], tr_b[132];
static iso_free_traces_t tf_a[132], tf_b[132];
/* a trace made by the call just watched names the frames it came through */
static void trace_chain(const uint64_t *c, size_t i, const char *what) {
    int j = 0;
    while(j < BACKTRACE_DEPTH && c[j] != cp_chain[0])
        if(!c[j++])
            V("profile", "new %s trace %zu has no caller in position %d, before the program's own", what, i, j - 1);
    if(j == BACKTRACE_DEPTH)
        V("profile", "new %s trace %zu does not name the caller %#llx it came through", what, i, UL(cp_chain[0]));
    for(int k = 0; j + k < BACKTRACE_DEPTH && k < 12; k++) {
        u64 want = k < cp_nchain && cp_chain[k] > 0x1000 ? cp_chain[k] : 0;
        if(c[j + k] != want)
            V("profile", "caller %d of the new %s trace %zu is %#llx, where the call came through %#llx", j + k, what, i, UL(c[j + k]), UL(want));
    }
}
static void free_diff(size_t na, size_t nb, u64 delta) {
    u64 rise = 0;
    if(nb < na || nb > na + delta)
        V("profile", "%zu free traces became %zu over %llu sampled calls", na, nb, UL(delta));
    for(size_t i = 0; i < nb; i++) {
        const iso_free_traces_t *a = &tf_a[i], *b = &tf_b[i];
        u64 was = i < na ? a->call_count : 0;
        if(b->call_count < was || (i < na && (memcmp(a->callers, b->callers, sizeof a->callers) || a->backtrace_hash != b->backtrace_hash)))
            V("profile", "free trace %zu is no longer the same, or its calls fell from %llu to %llu", i, UL(was), UL(b->call_count));
        rise += b->call_count - was;
        if(i >= na)
            trace_chain(b->callers, i, "free");
    }
    if(rise != delta && nb < 128)
        V("profile", "%llu calls were sampled, %llu were counted in the free traces", UL(delta), UL(rise));
}
/* the traces before and after one allocation of a lone thread: what changed describes that call */
static void trace_diff(size_t na, size_t nb, u64 delta, u64 size, u64 chunk) {
    u64 rise = 0;
    if(nb < na || nb > na + delta)
        V("profile", "%zu allocation traces became %zu over %llu sampled calls", na, nb, UL(delta));
    for(size_t i = 0; i < nb; i++) {
        const iso_alloc_traces_t *a = &tr_a[i], *b = &tr_b[i];
        u64 was = i < na ? a->call_count : 0;
        if(b->call_count < was)
            V("profile", "the calls of allocation trace %zu fell from %llu to %llu", i, UL(was), UL(b->call_count));
        rise += b->call_count - was;
        if(b->call_count == was) {
            if(i < na && memcmp(a, b, sizeof *a))
                V("profile", "allocation trace %zu changed without a call counted in it", i);
            continue;
        }
        if(i < na && (memcmp(a->callers, b->callers, sizeof a->callers) || a->backtrace_hash != b->backtrace_hash))
            V("profile", "allocation trace %zu is no longer the same call path", i);
        if(b->lower_bound_size > chunk || b->upper_bound_size < size)
            V("profile", "allocation trace %zu counted an allocation of %llu bytes (chunk of %llu) outside its size bounds %zu to %zu", i, UL(size), UL(chunk),
              b->lower_bound_size, b->upper_bound_size);
        u64 lo = i < na && a->lower_bound_size < size ? a->lower_bound_size : size, hi = i < na && a->upper_bound_size > chunk ? a->upper_bound_size : chunk;
        if(b->lower_bound_size < lo || b->upper_bound_size > hi)
            V("profile", "size bounds of allocation trace %zu became %zu to %zu by an allocation of %llu bytes (chunk of %llu)", i, b->lower_bound_size,
              b->upper_bound_size, UL(size), UL(chunk));
        if(i >= na)
            trace_chain(b->callers, i, "allocation");
        PROBE(profsample);
    }
    if(rise != delta && nb < 128)
        V("profile", "%llu calls were sampled, %llu were counted in the allocation traces", UL(delta), UL(rise));
}
#endif
/* one allocation through a call path of its own and, if asked, its release through another */
static node_t *path_alloc(u64 size, u64 which, u64 depth, u64 how, jit_t site) {
#if HEAP_PROFILER
    size_t na = 0;
    int watch = plan->nthreads == 1 && heap_ready && &_alloc_sampled_count != NULL;
    u64 s0 = watch ? _alloc_sampled_count : 0;
    if(watch)
        na = iso_get_alloc_traces(tr_a);
#endif
    void *p = (how & 10) == 10 ? site(cp_a[which % 12], size) : how & 2 ? tramp_call(cp_a[which % 12], size) : cp_deep((int) depth, (int) (which % 12), size);
    if(!p)
        check_null(size, "malloc");
#if HEAP_PROFILER
    if(watch && p && _alloc_sampled_count - s0 < 2)
        trace_diff(na, iso_get_alloc_traces(tr_b), _alloc_sampled_count - s0, size, iso_chunksz(p));
#endif
    node_t *n = p ? accept(p, size, -1, "malloc") : NULL;
    if(n)
        settle_new(n, 4, size);
    if(n && (how & 1)) { /* and free it by a path of its own */
        fr_t f = {n, n->s, 0, !n->sampled};
        free_begin(n, f.queued, 0);
        f.seq = n->free_seq;
#if HEAP_PROFILER
        s0 = watch ? _free_sampled_count : 0;
        if(watch)
            na = iso_get_free_traces(tf_a);
#endif
        if((how & 12) == 12)
            site(tramp_free, (u64) p);
        else if(how & 4)
            tramp_call(tramp_free, (u64) p);
        else
            cp_f[which % 12](p);
#if HEAP_PROFILER
        if(watch && _free_sampled_count - s0 < 2)
            free_diff(na, iso_get_free_traces(tf_b), _free_sampled_count - s0);
#endif
        prof_nf++;
        free_end(&f);
        n = NULL;
    }
    return n;
}
static void op_callpath(op_t *o) {
    slot_t *s = slot_take(ARG(0), 0);
    if(!s)
        return;
    u64 size = ARG(2) % 65000 + 1;
    jit_make();
    /* now and then from more places than the trace tables have room for */
    for(u64 i = 0; i < ARG(4) % 1000; i++)
        path_alloc(1 + (size + i) % 2000, ARG(1) + i % 5, 0, 15, jit_site(i * 7 + ARG(1)));
    slot_put(s, path_alloc(size, ARG(1), ARG(1) >> 8 & 0x3f, ARG(3), jit_call));
}
#if HEAP_PROFILER
/* `before`: calls sampled before the traces were asked for; other calls may have been under way since */
static int trace_check(const void *base, size_t esz, size_t cnt, size_t cap, int alloc, const u64 *before) {
    if(cnt > 128)
        V("profile", "%zu traces were reported, more than the table holds", cnt);
    const u8 *b = base;
    for(size_t i = cnt * esz; i < cap; i++)
        if(b[i] != 0xa5)
            V("profile", "retrieving %zu traces wrote byte %zu of the caller's array, beyond them", cnt, i);
    u64 total = 0;
    for(size_t i = 0; i < cnt; i++) {
        const iso_alloc_traces_t *t = (const void *) (b + i * esz);
        const iso_free_traces_t *ft = (const void *) (b + i * esz);
        int frames = 0;
        u64 h = 0;
        for(int k = 0; k < BACKTRACE_DEPTH; k++) {
            if(t->callers[k] == 0xa5a5a5a5a5a5a5a5ULL)
                V("profile", "%s trace %zu of %zu was not filled in", alloc ? "allocation" : "free", i, cnt);
            frames += t->callers[k] != 0;
            if(h && t->callers[k])
                V("profile", "%s trace %zu of %zu names the caller %#llx beyond the outermost frame of its call path", alloc ? "allocation" : "free", i, cnt, UL(t->callers[k]));
            h |= t->callers[k] == (u64) tramp_ret || in_jit(t->callers[k]);
        }
        if(!frames)
            V("profile", "%s trace %zu of %zu has no callers", alloc ? "allocation" : "free", i, cnt);
        u64 hash = alloc ? t->backtrace_hash : ft->backtrace_hash, calls = alloc ? t->call_count : ft->call_count;
        for(size_t j = 0; j < i; j++) {
            u64 hj = alloc ? ((const iso_alloc_traces_t *) (b + j * esz))->backtrace_hash : ((const iso_free_traces_t *) (b + j * esz))->backtrace_hash;
            if(hj == hash)
                V("profile", "%s traces %zu and %zu are the same call path", alloc ? "allocation" : "free", j, i);
        }
        total += calls;
        if(alloc) {
            if(t->lower_bound_size > t->upper_bound_size)
                V("profile", "trace %zu has size bounds %zu to %zu", i, t->lower_bound_size, t->upper_bound_size);
            if(calls && (t->lower_bound_size < 32 || t->upper_bound_size > (4ULL << 30)))
                V("profile", "trace %zu of %llu calls has size bounds %zu to %zu", i, UL(calls), t->lower_bound_size, t->upper_bound_size);
        }
        if(calls)
            PROBE(profsample);
    }
    u64 sampled = alloc ? (&_alloc_sampled_count ? _alloc_sampled_count - prof_base_a : total) : (&_free_sampled_count ? _free_sampled_count - prof_base_f : total);
    if(before) {
        if(total > sampled || (cnt < 128 && total < *before))
            V("profile", "%s call counts add up to %llu, but %llu to %llu calls were sampled", alloc ? "allocation" : "free", UL(total), UL(*before), UL(sampled));
    } else if(cnt < 128) {
        if(total != sampled)
            V("profile", "%s call counts add up to %llu, but %llu calls were sampled", alloc ? "allocation" : "free", UL(total), UL(sampled));
    } else if(total > sampled)
        V("profile", "%s call counts add up to %llu, but only %llu calls were sampled", alloc ? "allocation" : "free", UL(total), UL(sampled));
    return (int) cnt;
}
#endif
static void op_traces(op_t *o) {
#if HEAP_PROFILER
    if(!heap_ready)
        return;
    size_t cap = sizeof(iso_alloc_traces_t) * 132;
    u8 *buf = malloc(cap);
    memset(buf, 0xa5, cap);
    size_t n = iso_get_alloc_traces((void *) buf);
    trace_check(buf, sizeof(iso_alloc_traces_t), n, cap, 1, NULL);
    memset(buf, 0xa5, cap);
    n = iso_get_free_traces((void *) buf);
    trace_check(buf, sizeof(iso_free_traces_t), n, cap, 0, NULL);
    free(buf);
#endif
}
static void report_traces(void) {
#if HEAP_PROFILER
    if(!&_alloc_sampled_count || !&_free_sampled_count)
        return;
    size_t cap = sizeof(iso_alloc_traces_t) * 132;
    u8 *buf = malloc(cap);
    memset(buf, 0xa5, cap);
    u64 before = _alloc_sampled_count - prof_base_a;
    size_t n = iso_get_alloc_traces((void *) buf);
    trace_check(buf, sizeof(iso_alloc_traces_t), n, cap, 1, &before);
    memset(buf, 0xa5, cap);
    before = _free_sampled_count - prof_base_f;
    n = iso_get_free_traces((void *) buf);
    trace_check(buf, sizeof(iso_free_traces_t), n, cap, 0, &before);
    free(buf);
#endif
}
static void op_treset(op_t *o) {
#if HEAP_PROFILER
    if(!heap_ready)
        return;
    iso_alloc_reset_traces();
    prof_base_a = &_alloc_sampled_count ? _alloc_sampled_count : 0;
    prof_base_f = &_free_sampled_count ? _free_sampled_count : 0;
    u8 *buf = malloc(sizeof(iso_alloc_traces_t) * 132);
    if(iso_get_alloc_traces((void *) buf) || iso_get_free_traces((void *) buf))
        V("profile", "traces remain after a reset");
    free(buf);
#endif
}

/* ---------------------------------------------------------------- sampled blocks */
static void sample_corrupt(void *a) {
    pc_t *c = a;
    op_t *o = c->o;
    node_t *n = c->n;
    u64 pg = n->s & ~(PAGE - 1), len = iso_chunksz((void *) n->s);
    u64 lo = n->s - pg, hi = lo + len, x = ARG(1);
    u64 unused = PAGE - (hi - lo);
    if(unused == 0)
        sim_finish(3);
    u64 k = x % unused, at = k < lo ? k : hi + (k - lo);
    *(u8 *) (pg + at) ^= (u8) (1u << (x >> 32 & 7));
    if(x >> 40 & 1)
        iso_free((void *) n->s);
    else if(x >> 41 & 1)
        iso_free_size((void *) n->s, n->req);
    else
        (void) !iso_realloc((void *) n->s, n->req + 64);
}
static void op_samplecorrupt(op_t *o) {
    if(!feat.sane)
        return;
    for(int i = 0; i < MAXSLOTS; i++) {
        slot_t *s = &slots[(ARG(0) + (u64) i) % MAXSLOTS];
        if(s->n && s->n->sampled && !s->busy) {
            pc_t c = {.o = o, .n = s->n};
            probe_run(sample_corrupt, &c, 0, "overflow of a sampled block");
            return;
        }
    }
}

/* ---------------------------------------------------------------- reads before the first write */
static void uninit_read(void *a) {
    pc_t *c = a;
    op_t *o = c->o;
    node_t *n = c->n;
    volatile u8 *p = (u8 *) n->s;
    u64 x = ARG(1), off = x % 3 == 0 ? 0 : x % 3 == 1 ? n->req - 1 : (x >> 8) % n->req;
    (void) p[off];
}
static void op_uread(op_t *o) {
    if(!feat.uninit)
        return;
    for(int i = 0; i < MAXSLOTS; i++) {
        slot_t *s = &slots[(ARG(0) + (u64) i) % MAXSLOTS];
        if(!s->n || !s->n->sampled || s->busy || s->n->touched)
            continue;
        pc_t c = {.o = o, .n = s->n};
        probe_run(uninit_read, &c, 0, "a read of a sampled block that was never written");
        if(ARG(1) >> 40 & 1) { /* the first write, anywhere in the block, makes all of it readable */
            u64 at = (ARG(1) >> 20) % s->n->req;
            ((volatile u8 *) s->n->s)[at] = 1;
            for(u64 k = 0; k < s->n->req; k++)
                (void) ((volatile u8 *) s->n->s)[k];
            fill(s->n, s->n->req);
        }
        return;
    }
}

/* ---------------------------------------------------------------- global observations (barriers) */
static u64 mark_mapped, mark_zcycles;
static void walk_region(node_t *n, void *a) {
    region_t *r = region(n->region);
    if(n->state == N_LIVE || n->state == N_MOVING || (n->state == N_QUAR && !drain_certain(n)))
        r->nlive++;
    if(n->state == N_PERM)
        r->nperm++;
}
static void walk_scrub(node_t *n, void *a) {
    if((n->state != N_FREED && n->state != N_QUAR) || !n->touched || n->sampled)
        return;
    int i = vma_find(n->s);
    if(i < 0 || vma[i].id != n->region || !(vma[i].prot & PROT_READ))
        return;
    check_scrub(n, n->s, n->filled, n->seed, "after the queue was drained");
}
static u32 tag_n[12], tag_same[12];
static void walk_tags(node_t *n, void *a) {
    if((n->state != N_FREED && n->state != N_PERM && !(n->state == N_QUAR && drain_certain(n))) || !n->tagknown || n->zone < 0 || n->how > 11)
        return;
    zone_t *z = &zones[n->zone];
    int i = vma_find(n->s);
    if(!z->live || z->region != n->region || i < 0 || vma[i].id != n->region)
        return;
    tag_n[n->how]++;
    tag_same[n->how] += iso_alloc_get_mem_tag((void *) n->s, z->h) == n->tag;
}
static void observe(const char *when, int deep) {
    if(!heap_ready)
        return;
    do_flush();
    if(feat.tagging && !others_in_call()) { /* the tags of freed chunks have been drawn afresh: few may be the same by chance */
        memset(tag_n, 0, sizeof tag_n);
        memset(tag_same, 0, sizeof tag_same);
        nd_walk(root, walk_tags, NULL);
        for(int i = 0; i < 12; i++)
            if(tag_same[i] >= 6 && tag_same[i] * 4 >= tag_n[i] * 3)
                V("tag", "%s: %u of %u chunks freed in way %d still have the tag of their last lifetime", when, tag_same[i], tag_n[i], i);
    }
    if(locks_held())
        V("lock", "%s: a lock is held although no call is in progress", when);
    leak_equality(when);
    if(feat.sanitize && !munmap_faulted())
        nd_walk(root, walk_scrub, NULL);
    for(u32 i = 0; i < nregions; i++)
        regions[i].nlive = regions[i].nperm = 0;
    nd_walk(root, walk_region, NULL);
    u64 samples = 0;
    for(int i = 0; i < nvma; i++) {
        if(!(vma[i].prot & PROT_WRITE) || vma[i].id >= nregions)
            continue;
        region_t *r = &regions[vma[i].id];
        if(!r->known)
            continue;
        if(r->kind == 2)
            samples++;
        if(r->kind == 0 && r->zone < 0 && r->chunk && r->chunk < 16384 && r->nlive == 0 && r->nperm == 0 && !munmap_faulted() &&
           r->allocs > ZONE_BYTES / r->chunk * RETIRE_N)
            V("retire", "%s: an empty zone of %llu byte chunks that served %llu allocations (%llu per chunk allowed) was not replaced", when, UL(r->chunk),
              UL(r->allocs), UL(RETIRE_N));
    }
    if(feat.sane && samples > (u64) feat.sample_max && !munmap_faulted())
        V("sample", "%s: %llu sampled blocks are outstanding", when, UL(samples));
    if(!any_fault_fired && !heap_destroyed)
        for(int i = 0; i < nvma; i++) {
            if(!vma[i].big || (vma[i].id < nregions && regions[vma[i].id].kind == 1))
                continue;
            int c = vma[i].op >= 0 ? plan->op[vma[i].op].code : -1;
            if(c == O_realloc || c == O_reallocarray) /* frees as well, which may replace a zone */
                continue;
            int of = 0;
            for(u32 k = 0; k < nbigs && !of; k++)
                of = bigs[k].user == vma[i].id || bigs[k].meta == vma[i].id;
            if(!of)
                V("big-leak", "%s: %llu bytes at %#llx were mapped for a large block but belong to none", when, UL(vma[i].end - vma[i].start), UL(vma[i].start));
        }
    u64 cached = 0;
    for(u32 i = 0; i < nbigs; i++) {
        bigrec_t *b = &bigs[i];
        if(b->dead || b->perm)
            continue;
        int u = vma_exists(b->user), m = b->meta ? vma_exists(b->meta) : u;
        if(!u) {
            if(m && !munmap_faulted())
                V("big-leak", "%s: the bookkeeping page of a released large block is still mapped", when);
            b->dead = 1;
            PROBE(bigretire);
            continue;
        }
        if(!m && !munmap_faulted())
            V("big-leak", "%s: the bookkeeping page of large block %#llx is gone", when, UL(b->s));
        node_t *n = nd_from(b->s);
        if(n && n->s == b->s && n->state == N_LIVE)
            continue;
        cached++;
        if(b->served >= (int) BIG_RETIRE_N && !munmap_faulted())
            V("big-retire", "%s: large block %#llx was handed out %d times and freed, but is still mapped", when, UL(b->s), b->served);
        if(feat.prot_big && vma_rw_of(b->user) && !munmap_faulted())
            V("protect", "%s: the freed large block %#llx is accessible", when, UL(b->s));
    }
    if(cached > BIG_LIST_N && !munmap_faulted())
        V("big-cache", "%s: %llu freed large blocks are kept", when, UL(cached));
    if(cached == BIG_LIST_N)
        PROBE(bigcachefull);
    kern_guard_check(when);
    if(deep) {
        nd_walk(root, walk_check, (void *) when);
        iso_verify_zones();
    }
}
static void op_observe(op_t *o) { observe("at a quiet point", (int) ARG(0)); }
static void op_guardcheck(op_t *o) {
    if(heap_ready)
        kern_guard_check("guard check");
}
static void op_footmark(op_t *o) {
    if(!heap_ready)
        return;
    do_flush();
    mark_mapped = kern_mapped();
    mark_zcycles = zcycles;
}
static void op_footcheck(op_t *o) {
    if(!heap_ready || !mark_mapped || munmap_faulted())
        return;
    do_flush();
    if(kern_mapped() <= mark_mapped + ARG(0))
        return;
    if(kern_mapped() <= mark_mapped + ARG(0) + (zcycles - mark_zcycles) * (ZONE_BYTES + 65536))
        known(KN_ZCYCLE, "%llu private zones were created and destroyed in turn and the mapped memory rose from %llu to %llu bytes",
              UL(zcycles - mark_zcycles), UL(mark_mapped), UL(kern_mapped()));
    else
        V("footprint", "the same work again raised the mapped memory from %llu to %llu bytes", UL(mark_mapped), UL(kern_mapped()));
}
static void op_initagain(op_t *o) {
    if(!heap_ready)
        return;
    int n = nvma;
    iso_alloc_initialize();
    if(nvma != n)
        V("reinit", "initialising again created mappings");
    for(void (**f)(void) = __start_sim_ctors; f < __stop_sim_ctors; f++)
        (*f)();
    if(nvma != n)
        V("reinit", "running the constructor again created mappings");
}
static void op_cpu(op_t *o) {
    cur->cpu = (u32) (ARG(0) % (plan->cpus ? plan->cpus : 1));
}
static void op_edraw(op_t *o) {
    recording = ARG(0) & 1;
    rec_id0 = 0;
}
static void op_eswitch(op_t *o) { /* from here on the entropy comes from the second source */
    plan->entropy_from = (u32) n_getrandom;
    res->rec_n = 0;
    recording = 2;
    rec_id0 = kern_next_id;
}
static void op_nop(op_t *o) {}
static void op_barrier(op_t *o) {}
static void op_destroy(op_t *o) {}

static void (*const handlers[])(op_t *) = {
#define X(n) op_##n,
    OPS(X)
#undef X
};

void op_exec(int idx) {
    op_t *o = &plan->op[idx];
    op_seedbase = mix64(plan->seed * 31 + (u64) idx);
    op_cpus[idx] |= 1u << cur->cpu;
    cur->big_ctx = 0;
    if(heap_destroyed)
        return;
    trace("t%u #%d %s %llu %llu %llu %llu %llu\n", o->tid, idx, op_names[o->code], UL(o->arg[0]), UL(o->arg[1]), UL(o->arg[2]), UL(o->arg[3]), UL(o->arg[4]));
    u64 nulls = res->probe[P_nullret], acc0 = accepted;
    cur->no_entropy = 0;
    handlers[o->code](o);
    if(cur->no_entropy && (accepted != acc0 || res->probe[P_nullret] == nulls))
        V("entropy", "%s went on although its last draw of entropy had been refused", op_names[o->code]);
    if(!others_in_call() && locks_held())
        V("lock", "a lock is still held after %s although no call is in progress", op_names[o->code]);
}
void model_cpu_visit(void) {
    if(cur->in_op >= 0)
        op_cpus[cur->in_op] |= 1u << cur->cpu;
}

void model_init(void) {
    op_cpus[MAXOPS] = 1;
    nregions = 0;
    region(64);
}
static void run_ctors(void) {
    for(void (**f)(void) = __start_sim_ctors; f < __stop_sim_ctors; f++)
        (*f)();
}
void model_startup(void) {
    switch(plan->init) {
    case INIT_CTOR:
        if(feat.ctor)
            run_ctors();
        else
            iso_alloc_initialize();
        heap_ready = 1;
        break;
    case INIT_EXPLICIT:
        iso_alloc_initialize();
        heap_ready = 1;
        break;
    case INIT_CTOR_TWICE:
        run_ctors();
        iso_alloc_initialize();
        iso_alloc_initialize();
        heap_ready = 1;
        break;
    case INIT_LAZY:
        if(!feat.ctor) {
            iso_alloc_initialize();
            heap_ready = 1;
        } else
            PROBE(lazyinit);
        break;
    }
    if(cur->no_entropy)
        V("entropy", "initialisation went on although its last draw of entropy had been refused");
    if(heap_ready)
        kern_guard_check("after initialisation");
}
#if HEAP_PROFILER
/* the profile written at exit says what the traces say */
static char *pf_line(char **q) {
    char *l = *q, *e = strchr(l, '\n');
    if(!*l)
        return NULL;
    if(!e)
        V("profile", "the profile written at exit ends within the line \"%s\"", l);
    *e = 0;
    *q = e + 1;
    return l;
}
static void pf_num(char **q, const char *name, u64 want) {
    char *l = pf_line(q), b[80];
    snprintf(b, sizeof b, "%s=%u", name, (unsigned) want);
    if(!l || strcmp(l, b))
        V("profile", "the profile written at exit says \"%s\" instead of \"%s\"", l ? l : "", b);
}
extern uint64_t _alloc_count __attribute__((weak)), _free_count __attribute__((weak));
/* every call is counted, and one in PROFILER_ODDS of them sampled (none in 40 expected samples has odds of e^-40) */
static void profile_rate(void) {
    u64 odds = knob_or(K_PROF_ODDS, 10000);
    if(&_alloc_sampled_count == NULL)
        return;
    if(&_alloc_count && _alloc_count < prof_na)
        V("profile", "%llu allocations were counted, of %llu", UL(_alloc_count), UL(prof_na));
    if(&_free_count && _free_count < prof_nf)
        V("profile", "%llu frees were counted, of %llu", UL(_free_count), UL(prof_nf));
    if(prof_na > odds * 40 && !_alloc_sampled_count)
        V("profile", "none of %llu allocations was sampled, at one in %llu", UL(prof_na), UL(odds));
    if(prof_nf > odds * 40 && !_free_sampled_count)
        V("profile", "none of %llu frees was sampled, at one in %llu", UL(prof_nf), UL(odds));
}
static u64 pz[256]; /* chunk sizes of the zones there were at exit, where known */
static int npz;
static void profile_check(size_t na, size_t nf, const iso_alloc_traces_t *ta, const iso_free_traces_t *tf) {
    if(&_alloc_sampled_count == NULL || munmap_faulted() || profile_len == 0)
        return;
    profile_out[profile_len < sizeof profile_out ? profile_len : sizeof profile_out - 1] = 0;
    char *q = profile_out, want[256];
    char *l = pf_line(&q);
    if(!l || strncmp(l, "allocated=", 10) || strtoull(l + 10, NULL, 10) < _alloc_sampled_count)
        V("profile", "the profile written at exit says \"%s\" for the number of allocations", l ? l : "");
    pf_num(&q, "alloc_sampled", _alloc_sampled_count);
    l = pf_line(&q);
    if(!l || strncmp(l, "freed=", 6) || strtoull(l + 6, NULL, 10) < _free_sampled_count)
        V("profile", "the profile written at exit says \"%s\" for the number of frees", l ? l : "");
    pf_num(&q, "free_sampled", _free_sampled_count);
    for(size_t i = 0; i < na + nf; i++) {
        const iso_alloc_traces_t *a = i < na ? &ta[i] : NULL;
        const iso_free_traces_t *f = i < na ? NULL : &tf[i - na];
        if(a)
            snprintf(want, sizeof want, "alloc_backtrace=%zu,backtrace_hash=0x%x,calls=%u,lower_bound_size=%zu,upper_bound_size=%zu", i, (unsigned) a->backtrace_hash,
                     (unsigned) a->call_count, a->lower_bound_size, a->upper_bound_size);
        else
            snprintf(want, sizeof want, "free_backtrace=%zu,backtrace_hash=0x%x,calls=%u", i - na, (unsigned) f->backtrace_hash, (unsigned) f->call_count);
        l = pf_line(&q);
        if(!l || strcmp(l, want))
            V("profile", "the profile written at exit says \"%s\" instead of \"%s\"", l ? l : "", want);
        for(int k = 0; k < BACKTRACE_DEPTH; k++) {
            u64 c = a ? a->callers[k] : f->callers[k];
            if(c < 0x1000)
                continue;
            l = pf_line(&q);
            Dl_info dl;
            int named = dladdr((void *) c, &dl) && dl.dli_sname;
            if(named) {
                snprintf(want, sizeof want, "\t0x%llx -> %s %s", UL(c), dl.dli_sname, dl.dli_fname);
                PROBE(profname);
            } else
                snprintf(want, sizeof want, "\t0x%llx -> [?]", UL(c));
            if(!l || strcmp(l, want))
                V("profile", "the profile written at exit says \"%s\" instead of \"%s\"", l ? l : "", want);
            if(in_jit(c))
                PROBE(profjit);
        }
        PROBE(proffile);
    }
    u64 last = 0, seen = 0;
    while((l = pf_line(&q))) {
        unsigned long long sz, t, c;
        if(sscanf(l, "%llu,%llu,%llu", &sz, &t, &c) != 3 || sz <= last || sz > 65536 || !c)
            V("profile", "the profile written at exit holds the line \"%s\"", l);
        for(int k = 0; k < 8; k++)
            if(pfull[k].chunk == sz) {
                seen |= 1u << k;
                if(c < pfull[k].need)
                    V("profile", "the profile written at exit counts zones of %llu byte chunks as nearly full in %llu samples, they were in at least %llu", sz, c, UL(pfull[k].need));
                PROBE(proffull);
            }
        u64 used = 0, known = 0, maybe = 0, exist = 0;
        for(int i = 0; i < npz; i++)
            exist += pz[i] == sz;
        if(t < exist)
            V("profile", "the profile written at exit says there are %llu zones of %llu byte chunks, there are at least %llu", t, sz, UL(exist));
        for(u32 i = 0; i < nregions; i++)
            if(regions[i].known && regions[i].kind == 0 && !regions[i].chunk)
                maybe = 1;
            else if(regions[i].known && regions[i].kind == 0 && regions[i].chunk == sz) {
                known = 1;
                if(regions[i].allocs * 100 / (ZONE_BYTES / sz) > used)
                    used = regions[i].allocs * 100 / (ZONE_BYTES / sz);
            }
        if(known && !maybe && used < 60)
            V("profile", "the profile written at exit counts zones of %llu byte chunks as nearly full, at most %llu percent of one were used", sz, UL(used));
        last = sz;
        if(c > _alloc_sampled_count * 8192)
            V("profile", "the profile written at exit counts %llu zones of %llu byte chunks nearly full %llu times over %llu samples", t, sz, c, UL(_alloc_sampled_count));
    }
    for(int k = 0; k < 8; k++)
        if(pfull[k].need && !(seen >> k & 1))
            V("profile", "the profile written at exit does not count the zones of %llu byte chunks that were full in %llu samples", UL(pfull[k].chunk), UL(pfull[k].need));
}
#endif
static void final_destroy(void) {
    PROBE(destroy);
    u64 left = 0;
    destroying = 1;
#if HEAP_PROFILER
    static iso_free_traces_t tf[132];
    size_t tna = iso_get_alloc_traces(tr_a), tnf = iso_get_free_traces(tf);
    profile_len = 0;
    npz = 0;
    if(!munmap_faulted())
        for(int i = 0; i < nvma; i++)
            if(usable_zone_vma(&vma[i]) && vma[i].id < nregions && regions[vma[i].id].known && regions[vma[i].id].chunk && npz < 256)
                pz[npz++] = regions[vma[i].id].chunk;
#endif
    if(feat.ctor && (plan->seed & 1))
        for(void (**f)(void) = __start_sim_dtors; f < __stop_sim_dtors; f++)
            (*f)();
    else
        iso_alloc_destroy();
    heap_destroyed = 1;
    if(locks_held())
        V("lock", "a lock is held after destruction");
#if HEAP_PROFILER
    if(!profile_len)
        V("profile", "no profile was written at exit");
    profile_rate();
    profile_check(tna, tnf, tr_a, tf);
#endif
    for(u32 i = 0; i < nbigs; i++)
        if(!bigs[i].perm && !munmap_faulted() && (vma_exists(bigs[i].user) || (bigs[i].meta && vma_exists(bigs[i].meta))))
            V("destroy-leak", "large block %#llx or its bookkeeping is still mapped after the heap was destroyed", UL(bigs[i].s));
    if(feat.dtor_cleanup && !munmap_faulted()) {
        for(int i = 0; i < nvma; i++) {
            int perm = 0, smp = regions && vma[i].id < nregions && regions[vma[i].id].kind == 2;
            for(u32 k = 0; k < nbigs; k++)
                perm |= bigs[k].perm && (bigs[k].user == vma[i].id || bigs[k].meta == vma[i].id);
            if(!perm && !smp)
                left += vma[i].end - vma[i].start;
        }
        if(left)
            V("destroy-leak", "%llu bytes are still mapped after destruction with cleanup (%d mappings)", UL(left), nvma);
        /* the heap can be used again */
        memset(zones, 0, sizeof zones);
        root = NULL;
        nbigs = 0;
        zero_ptr = NULL;
        destroying = 0;
        iso_alloc_initialize();
        node_t *a[40];
        for(int i = 0; i < 40; i++) {
            void *p = iso_alloc((u64) i * 97 + 1);
            if(!p)
                V("null", "allocation failed after the heap was initialised again");
            a[i] = accept(p, (u64) i * 97 + 1, -1, "malloc after initialising again");
            settle_new(a[i], 1, (u64) i * 97 + 1);
        }
        for(int i = 0; i < 40; i++)
            do_free(a[i], i % 3);
        iso_flush_caches();
        iso_verify_zones();
        kern_guard_check("after initialising again");
    }
}
/* none in 40 expected samples has odds of e^-40 */
static void sample_rate(void) {
#if ALLOC_SANITY && !UNINIT_READ_SANITY
    u64 odds = knob_or(K_SANE_ODDS, 10000);
    if(!samples_seen && sample_tries > odds * 40 && !any_fault_fired)
        V("sample", "none of %llu allocations was sampled, at one in %llu", UL(sample_tries), UL(odds));
#endif
}
void model_final(void) {
    op_seedbase = mix64(plan->seed ^ 0xf17a1);
    sample_rate();
    if(!heap_ready) {
        sim_finish(0);
    }
    cur->cpu = 0;
    nd_walk(root, walk_check, "at the end");
    rng_t r = {plan->seed ^ 0x5555};
    if(!(plan->flags & RF_NOFREEALL)) {
        for(int i = 0; i < MAXSLOTS; i++)
            if(slots[i].n) {
                node_t *n = slots[i].n;
                slots[i].n = NULL;
                do_free(n, (int) rndn(&r, 3));
            }
        for(int g = 0; g < MAXGROUPS; g++)
            for(u32 i = 0; i < groups[g].n; i++)
                do_free(groups[g].v[i], (int) rndn(&r, 3));
    }
    observe("at the end", 1);
    if(plan->flags & RF_DESTROY) {
        /* destruction finds a partly or wholly filled zone cache and queue */
        for(u64 i = 0, k = rndn(&r, 24); i < k; i++) {
            u64 size = 32ull << (i % 9);
            void *p = iso_alloc(size);
            if(!p)
                break;
            node_t *n = accept(p, size, -1, "malloc before the heap is destroyed");
            settle_new(n, 0, size);
            do_free(n, 0);
        }
        final_destroy();
    }
    (void) canary_zones_seen;
    (void) check_scrub;
}
