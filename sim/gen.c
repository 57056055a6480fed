/* Plans: generated from one seed, printed, parsed. A plan is everything a run depends on. */
#include "sim.h"
#include "isoalloc_sim_knobs.h"

#ifndef SIM_VARIANT
#define SIM_VARIANT "base"
#endif

typedef struct {
    const char *name;
    int tmin, tmax, omin, omax; /* threads, operations */
    int sizes;                  /* size distribution, see gsize */
    int flags;
    const char *w;
} prof_t;
enum { G_KNOBS = 1, G_FAULTS = 2, G_LAZY = 4, G_BIGKNOBS = 8, G_DESTROY = 16, G_NOOBS = 32, G_SWARM = 64, G_PAIR = 128, G_FOOT = 256, G_MAXZ = 512, G_BENIGN = 1024, G_FEWBIG = 2048 };
enum { SZ_MIX, SZ_SMALL, SZ_BIG, SZ_EDGE, SZ_FEW, SZ_TINY };

static const prof_t profs[] = {
    {"mix", 1, 5, 60, 300, SZ_MIX, G_KNOBS | G_BIGKNOBS | G_SWARM | G_LAZY,
     "malloc:30 calloc:6 realloc:8 reallocarray:2 strdup:3 strndup:3 free:34 chunksz:6 check:4 write:6 znew:3 zalloc:14 zdestroy:2 zfill:1 verify:2 "
     "verifyz:2 flush:3 leaks:1 zleaks:1 usage:1 report:1 bulk:2 bulkfree:2 churn:1 tend:2 protect:1 null:1 zero:2 memalign:2 hookalloc:1 cxxnew:3 memops:3 "
     "tagcheck:4 callpath:2 observe:2 initagain:1 cpu:4 impossible:1"},
    {"small", 1, 4, 40, 200, SZ_SMALL, G_KNOBS | G_SWARM,
     "malloc:24 calloc:4 free:26 chunksz:4 write:3 flush:3 bulk:8 bulkfree:8 churn:5 verify:2 tend:2 realloc:4 observe:3 znew:1 zalloc:4 usage:1 leaks:1"},
    {"big", 1, 5, 60, 260, SZ_BIG, G_KNOBS | G_BIGKNOBS,
     "malloc:30 calloc:4 realloc:14 reallocarray:2 free:34 chunksz:10 check:6 write:6 verify:6 flush:2 leaks:3 usage:3 report:4 observe:4 strdup:1 memalign:1 bulk:1 "
     "bulkfree:1 churn:1"},
    {"zones", 1, 4, 50, 220, SZ_EDGE, G_KNOBS | G_SWARM,
     "znew:16 zalloc:40 zdestroy:8 zfill:5 free:30 bulkfree:5 verifyz:4 verify:2 zleaks:4 leaks:1 flush:3 malloc:10 chunksz:6 check:3 write:3 strdup:4 "
     "strndup:4 tend:1 usage:2 observe:3 null:1"},
    {"capacity", 1, 2, 14, 50, SZ_EDGE, 0, "znew:14 zfill:14 bulkfree:14 zalloc:10 free:8 flush:4 zdestroy:5 verifyz:3 zleaks:2 chunksz:3 observe:1"},
    {"strings", 1, 3, 40, 160, SZ_MIX, G_KNOBS, "strdup:24 strndup:40 free:40 write:20 malloc:16 znew:5 zalloc:8 verify:1 chunksz:4 flush:2 zdestroy:1 observe:1"},
    {"resize", 1, 4, 50, 220, SZ_MIX, G_KNOBS | G_BIGKNOBS, "malloc:16 realloc:50 reallocarray:10 free:14 chunksz:4 check:8 write:10 verify:2 leaks:3 usage:1 flush:1 observe:2 "
     "impossible:4 calloc:2 zalloc:4 znew:1"},
    {"quar", 1, 5, 60, 320, SZ_FEW, G_KNOBS, "malloc:40 free:50 flush:6 leaks:4 chunksz:1 tend:1 znew:2 zalloc:6 zdestroy:2 bulk:2 bulkfree:3 observe:1 verify:1"},
    {"misuse", 1, 2, 30, 120, SZ_MIX, G_KNOBS, "malloc:40 calloc:3 realloc:4 free:26 znew:4 zalloc:16 chunksz:2 flush:2 misuse:26 bulk:1 bulkfree:1 zdestroy:1 zero:1 memalign:1"},
    {"corrupt", 1, 2, 20, 70, SZ_MIX, G_KNOBS, "malloc:36 free:20 znew:4 zalloc:14 flush:2 corrupt:16 bulk:1 bulkfree:1 chunksz:1 calloc:2"},
    {"perm", 1, 3, 60, 260, SZ_MIX, G_KNOBS | G_BIGKNOBS, "malloc:40 free:60 znew:3 zalloc:16 chunksz:2 bulk:3 bulkfree:4 churn:1 flush:2 verify:3 leaks:2 observe:2 realloc:4 usage:1"},
    {"faults", 1, 3, 30, 140, SZ_MIX, G_FAULTS | G_KNOBS | G_BIGKNOBS | G_LAZY,
     "malloc:36 calloc:6 realloc:8 free:34 strdup:3 znew:6 zalloc:14 zdestroy:4 bulk:2 bulkfree:2 flush:3 verify:3 chunksz:4 check:2 usage:1 observe:2 zfill:1 cxxnew:3 memalign:1 "
     "memops:2 traces:1"},
    {"benign", 1, 3, 40, 160, SZ_MIX, G_BENIGN | G_KNOBS | G_BIGKNOBS,
     "malloc:36 calloc:6 realloc:8 free:34 strdup:3 znew:6 zalloc:14 zdestroy:4 bulk:2 bulkfree:2 flush:3 verify:3 chunksz:4 check:2 observe:2 zfill:1"},
    {"zero", 1, 4, 20, 120, SZ_MIX, G_LAZY | G_KNOBS, "zero:30 malloc:24 free:20 realloc:4 check:6 verify:2 flush:2 calloc:2 misuse:2 znew:1 zalloc:2 observe:1"},
    {"leaks", 1, 4, 60, 240, SZ_MIX, G_KNOBS | G_BIGKNOBS, "malloc:34 calloc:3 realloc:6 free:36 leaks:12 zleaks:8 usage:8 report:6 znew:4 zalloc:14 zdestroy:3 bulk:2 bulkfree:2 flush:2 churn:1 "
     "protect:1"},
    {"init", 2, 6, 12, 60, SZ_MIX, G_LAZY | G_DESTROY | G_KNOBS, "malloc:40 calloc:8 zero:10 free:20 realloc:4 strdup:2 initagain:4 check:2 verify:2 chunksz:2 znew:2 zalloc:4 null:2"},
    {"destroy", 1, 3, 30, 140, SZ_MIX, G_DESTROY | G_KNOBS | G_BIGKNOBS, "malloc:40 calloc:3 free:30 realloc:5 znew:3 zalloc:8 zdestroy:1 flush:1 bulk:2 bulkfree:1 corrupt:3 chunksz:1 churn:1"},
    {"foot", 1, 2, 30, 60, SZ_FEW, G_FOOT | G_KNOBS, "malloc:1"},
    {"pair", 1, 1, 30, 90, SZ_SMALL, G_PAIR, "malloc:30 free:20 znew:8 zalloc:30 flush:2 bulk:4"},
    {"cpu", 2, 5, 60, 260, SZ_SMALL, G_KNOBS, "malloc:40 calloc:5 realloc:6 free:36 cpu:20 chunksz:6 strdup:2 znew:3 zalloc:8 bulk:2 bulkfree:2 flush:3 verify:3 observe:2 zdestroy:1 tend:1"},
    {"memory", 1, 2, 30, 140, SZ_SMALL, G_KNOBS, "malloc:24 free:14 memops:60 memover:16 znew:3 zalloc:8 zdestroy:1 realloc:3 check:2 strdup:2 observe:1"},
    {"hooks", 1, 3, 40, 180, SZ_MIX, G_KNOBS | G_LAZY, "malloc:24 calloc:10 realloc:10 reallocarray:4 free:40 memalign:24 hookalloc:10 cxxnew:30 impossible:10 null:5 chunksz:6 zero:3 check:2 verify:1 observe:1"},
    {"sizes", 1, 2, 40, 160, SZ_EDGE, G_KNOBS | G_BIGKNOBS, "malloc:40 calloc:12 realloc:10 reallocarray:4 free:40 chunksz:30 impossible:16 write:6 memalign:4 bulk:1 bulkfree:1 observe:1"},
    {"zeroed", 1, 3, 40, 180, SZ_MIX, G_KNOBS | G_BIGKNOBS, "calloc:50 malloc:14 free:50 write:10 flush:5 bulkfree:2 bulk:2 chunksz:3 observe:1 realloc:3 churn:1"},
    {"tags", 1, 3, 40, 200, SZ_EDGE, G_KNOBS, "znew:10 zalloc:50 tagcheck:40 tagstale:6 free:34 zdestroy:3 flush:4 chunksz:3 zfill:1 bulkfree:1 verify:2 malloc:5 observe:2"},
    {"sample", 1, 4, 50, 240, SZ_SMALL, G_KNOBS, "malloc:40 calloc:6 realloc:12 reallocarray:2 free:40 chunksz:12 write:10 samplecorrupt:8 strdup:4 flush:2 znew:1 zalloc:4 verify:2 bulk:1 bulkfree:1 observe:3 "
     "hookalloc:2 tend:1 leaks:1"},
    {"uninit", 1, 4, 40, 200, SZ_SMALL, G_KNOBS | G_LAZY, "malloc:44 calloc:6 realloc:6 strdup:3 free:40 write:10 uread:14 chunksz:4 check:5 flush:1 observe:1 tend:1 hookalloc:1 bulk:1 bulkfree:1 zalloc:2 znew:1"},
    {"prof", 1, 4, 40, 220, SZ_SMALL, G_KNOBS, "callpath:60 malloc:10 free:20 report:14 traces:12 treset:3 calloc:2 realloc:3 flush:2 check:2 observe:1 bulk:1 bulkfree:1 znew:3 zfill:2 zalloc:3 zdestroy:1"},
    {"uaf", 1, 2, 12, 40, SZ_FEW, 0, "malloc:30 free:14 uafplant:6 uafderef:3 write:4 check:6 znew:1 zalloc:3 verify:1"},
    {"guards", 1, 3, 40, 180, SZ_MIX, G_KNOBS | G_BIGKNOBS | G_LAZY, "malloc:30 calloc:3 realloc:6 free:36 znew:8 zalloc:12 zdestroy:5 bulk:4 bulkfree:4 churn:3 guardcheck:12 flush:2 zfill:1 protect:1"},
    {"retire", 1, 4, 30, 140, SZ_FEW, G_KNOBS, "churn:14 malloc:20 free:24 bulk:10 bulkfree:10 flush:5 verify:2 check:3 znew:2 zalloc:8 zdestroy:2 observe:4 chunksz:2 calloc:2 tend:1 leaks:1 usage:1"},
    {"conc", 3, 6, 80, 320, SZ_MIX, G_KNOBS | G_BIGKNOBS | G_SWARM,
     "malloc:30 calloc:5 realloc:10 free:36 chunksz:8 znew:4 zalloc:12 zdestroy:4 verify:6 verifyz:3 flush:5 tend:2 protect:5 strdup:2 bulk:1 bulkfree:1 zleaks:1 report:7 cxxnew:2"},
    {"bigconc", 3, 6, 80, 300, SZ_FEW, G_KNOBS | G_BIGKNOBS | G_FEWBIG,
     "malloc:40 calloc:4 realloc:6 free:44 chunksz:6 verify:6 flush:2 report:16 protect:1 strdup:1 tend:1 observe:3"},
    {"zonelimit", 1, 2, 60, 200, SZ_FEW, G_KNOBS | G_MAXZ, "malloc:30 free:30 znew:12 zalloc:10 zdestroy:10 bulk:6 bulkfree:6 churn:4 verify:1 check:2 usage:3"},
    {NULL, 0, 0, 0, 0, 0, 0, NULL}};

static rng_t R;
static int full[MAXSLOTS], zlive[MAXZONES], gfull[MAXGROUPS], slotzone[MAXSLOTS];
static u64 ssize[MAXSLOTS], zsize[MAXZONES], few[6];
static int nslots, many_paths, sizemode, bigs_live, huge_used;

static u64 pick(const u64 *v, int n) { return v[rndn(&R, n)]; }
static u64 edge(void) { /* around powers of two, multiples of the granule, page and class limits */
    static const u64 base[] = {16, 32, 64, 96, 128, 256, 512, 1024, 1504, 2048, 4096, 8192, 16384, 24576, 32768, 40000, 65536, 12288, 3072, 6144};
    static const int d[] = {0, 0, 0, 1, -1, 7, 8, -8, 31, -31, 32, -32, 33};
    long v = (long) base[rndn(&R, 20)] + d[rndn(&R, 13)];
    return v < 1 ? 1 : (u64) v;
}
static u64 bigsize(void) {
    int k = (int) rndn(&R, 100);
    if(k < 30)
        return 65537 + rndn(&R, 40000);
    if(k < 55)
        return 65537 + rndn(&R, 300000);
    if(k < 70)
        return (17 + rndn(&R, 60)) * 4096 + (rndn(&R, 3) - 1);
    if(k < 80)
        return 1000000 + rndn(&R, 1100000);
    if(k < 88)
        return (2ULL << 20) + (rndn(&R, 3) - 1) * (rndn(&R, 2) ? 1 : 4096);
    if(k < 94)
        return (4ULL << 20) + (rndn(&R, 3) - 1) * (rndn(&R, 2) ? 1 : 4096);
    if(k < 99 || huge_used)
        return (4ULL << 20) + rndn(&R, 8ULL << 20);
    huge_used++;
    static const u64 h[] = {64ULL << 20, 300ULL << 20, 1ULL << 30, (4ULL << 30) - (64 << 10), 2ULL << 30, 4ULL << 30};
    u64 v = pick(h, 6);
    return chance(&R, 25) ? v : v - rndn(&R, 5000);
}
static u64 smallsize(void) {
    int k = (int) rndn(&R, 100);
    if(k < 40)
        return 1 + rndn(&R, 400);
    if(k < 65)
        return edge() > 65536 ? 65536 : 1 + rndn(&R, 4000);
    if(k < 85) {
        u64 e = edge();
        return e > 65536 ? 65536 : e;
    }
    return 1 + rndn(&R, 65536);
}
static u64 gsize(void) {
    switch(sizemode) {
    case SZ_SMALL: return smallsize();
    case SZ_BIG: return chance(&R, 78) ? bigsize() : smallsize();
    case SZ_EDGE: return chance(&R, 70) ? edge() : chance(&R, 20) ? bigsize() : smallsize();
    case SZ_FEW: return pick(few, 6);
    case SZ_TINY: return 1 + rndn(&R, 64);
    default: return chance(&R, 15) ? bigsize() : smallsize();
    }
}
static u64 zonesize(void) {
    int k = (int) rndn(&R, 100);
    if(k < 45)
        return 16ULL << rndn(&R, 13);
    if(k < 65) {
        u64 e = edge();
        return e > 65536 ? 65536 : e;
    }
    if(k < 80)
        return 32 * (1 + rndn(&R, 2048));
    if(k < 90)
        return 32000 + 32 * rndn(&R, 16);
    if(k < 96)
        return 1 + rndn(&R, 65536);
    static const u64 bad[] = {65537, 65568, 100000, 1ULL << 20, 1ULL << 32, UINT64_MAX, UINT64_MAX - 30};
    return pick(bad, 7);
}
static int empty_slot(void) {
    for(int t = 0; t < 20; t++) {
        int s = (int) rndn(&R, nslots);
        if(!full[s])
            return s;
    }
    return (int) rndn(&R, nslots);
}
static int full_slot(void) {
    for(int t = 0; t < 30; t++) {
        int s = (int) rndn(&R, nslots);
        if(full[s])
            return s;
    }
    return (int) rndn(&R, nslots);
}
static int live_zone(void) {
    for(int t = 0; t < 20; t++) {
        int z = (int) rndn(&R, GENZONES);
        if(zlive[z])
            return z;
    }
    return 0;
}
static int livezone_of_slot(void) { /* a slot holding a block of a private zone */
    for(int t = 0; t < 40; t++) {
        int s = (int) rndn(&R, nslots);
        if(full[s] && slotzone[s])
            return s;
    }
    return full_slot();
}
static void put(int s, u64 size, int zone) {
    full[s] = 1;
    ssize[s] = size;
    slotzone[s] = zone;
}

static int parse_weights(const char *w, int *wt) {
    int tot = 0;
    memset(wt, 0, sizeof(int) * O_COUNT);
    while(*w) {
        char nm[32];
        int v, used;
        if(sscanf(w, " %31[a-z]:%d%n", nm, &v, &used) != 2)
            break;
        w += used;
        int c = -1;
        for(int i = 0; i < O_COUNT; i++)
            if(!strcmp(nm, op_names[i]))
                c = i;
        if(c < 0)
            abort();
        wt[c] = v;
        tot += v;
    }
    return tot;
}

static int hows(int perm_bias) {
    int k = (int) rndn(&R, 100);
    if(perm_bias && k < 22)
        return 5 + (int) rndn(&R, 2);
    if(k < 50)
        return 0;
    if(k < 62)
        return 1;
    if(k < 70)
        return 2;
    if(k < 74)
        return 3;
    if(k < 82)
        return 4;
    if(k < 84)
        return 5;
    if(k < 86)
        return 6;
    if(k < 91)
        return 7;
    if(k < 94)
        return feat.cpp ? 8 : 0;
    if(k < 97)
        return feat.cpp ? 9 : 1;
    return 10;
}

static plan_t *P;
static int curtid, preprob, maxacc;
static op_t *emit(int code, u64 a, u64 b, u64 c, u64 d, u64 e) {
    if(P->nops >= MAXOPS - 4)
        return &P->op[MAXOPS - 1];
    op_t *o = &P->op[P->nops++];
    memset(o, 0, sizeof *o);
    o->code = (u8) code;
    o->tid = (u8) curtid;
    o->arg[0] = a, o->arg[1] = b, o->arg[2] = c, o->arg[3] = d, o->arg[4] = e;
    if(P->nthreads > 1 && chance(&R, preprob)) {
        int n = 1 + (chance(&R, 35) ? (int) rndn(&R, MAXPRE - 1) : 0);
        u32 s = 0, acc = 0;
        for(int k = 0; k < n; k++) {
            s += (u32) rndn(&R, chance(&R, 60) ? 3 : 12);
            if(k && s == o->pre[k - 1].s)
                acc += 1 + (u32) rndn(&R, 40);
            else
                acc = chance(&R, 45) ? 0 : chance(&R, 70) ? (u32) rndn(&R, 60) : (u32) rndn(&R, (u64) maxacc);
            o->pre[k].s = s;
            o->pre[k].a = acc;
            o->pre[k].d = chance(&R, 60) ? 1 + (u32) rndn(&R, 3) : 1 + (u32) rndn(&R, 40);
        }
        o->npre = (u8) n;
    }
    return o;
}

static void gen_op(int code, const prof_t *pr) {
    u64 sz;
    int s, z;
    switch(code) {
    case O_malloc:
        s = empty_slot();
        sz = gsize();
        z = (int) rndn(&R, 16) & (chance(&R, 50) ? 7 : 15);
        emit(code, s, sz, (u64) z | (feat.uninit && chance(&R, 50) ? 16 : 0), 0, 0);
        put(s, sz, 0);
        break;
    case O_calloc: {
        s = empty_slot();
        sz = gsize();
        u64 n = 1;
        if(chance(&R, 60)) {
            n = 1 + rndn(&R, 40);
            if(sz > 65536)
                n = 1 + rndn(&R, 3);
            else if(sz * n > 400000)
                n = 1 + rndn(&R, 6);
            if(chance(&R, 30)) { /* many small elements: rounded up they may cross into the large sizes */
                n = rndn(&R, 5000);
                sz = 1 + rndn(&R, 40);
            }
        }
        emit(code, s, n, sz, rndn(&R, 16), 0);
        if(n)
            put(s, n * sz, 0);
        break;
    }
    case O_realloc:
        s = chance(&R, 80) ? full_slot() : (int) rndn(&R, nslots);
        sz = chance(&R, 30) && full[s] && ssize[s] > 4 ? ssize[s] / 2 + rndn(&R, ssize[s]) : gsize();
        if(chance(&R, 4))
            sz = 0;
        emit(code, s, sz, rndn(&R, 16), 0, 0);
        if(sz)
            put(s, sz, 0);
        else
            full[s] = 0;
        break;
    case O_reallocarray: {
        s = chance(&R, 70) ? full_slot() : (int) rndn(&R, nslots);
        u64 n = 1 + rndn(&R, 50), e = 1 + rndn(&R, 3000);
        emit(code, s, n, e, rndn(&R, 8), 0);
        put(s, n * e, 0);
        break;
    }
    case O_strdup:
    case O_strndup: {
        s = empty_slot();
        z = chance(&R, 35) ? live_zone() : -1;
        u64 len = chance(&R, 60) ? rndn(&R, 300) : chance(&R, 70) ? edge() - 1 : chance(&R, 50) ? rndn(&R, 200000) : 65530 + rndn(&R, 12);
        if(z >= 0)
            len = chance(&R, 30) && zlive[z] ? (zsize[z] ? zsize[z] - 1 : 0) : rndn(&R, zsize[z] ? zsize[z] : 1);
        if(code == O_strdup)
            emit(code, s, len, z + 1, 0, 0);
        else {
            u64 b = chance(&R, 25) ? len : chance(&R, 40) ? rndn(&R, len + 2) : chance(&R, 40) ? len + 1 + rndn(&R, 100) : chance(&R, 30) ? 0 : edge();
            emit(code, s, len, b, z + 1, 0);
        }
        put(s, len + 1, z + 1);
        break;
    }
    case O_free:
        s = full_slot();
        emit(code, s, hows(!strcmp(pr->name, "perm")), 0, 0, 0);
        full[s] = 0;
        break;
    case O_chunksz: emit(code, full_slot(), rndn(&R, 4), 0, 0, 0); break;
    case O_check: case O_write: case O_hookalloc: emit(code, full_slot(), 0, 0, 0, 0); break;
    case O_tagcheck: emit(code, livezone_of_slot(), 0, 0, 0, 0); break;
    case O_znew:
        z = (int) rndn(&R, GENZONES);
        sz = strcmp(pr->name, "prof") ? zonesize() : 8192ULL << rndn(&R, 4); /* few chunks: every sample counts the used ones of every zone */
        emit(code, z, sz, rndn(&R, 2), 0, 0);
        if(sz <= 65536 && !zlive[z]) {
            zlive[z] = 1;
            zsize[z] = sz;
        }
        break;
    case O_zalloc:
        z = live_zone();
        s = empty_slot();
        emit(code, z, s, rndn(&R, 8) | (feat.tagging && chance(&R, 60) ? 2 : 0), 0, 0);
        if(zlive[z])
            put(s, zsize[z], z + 1);
        break;
    case O_zdestroy:
        z = live_zone();
        emit(code, z, 0, 0, 0, 0);
        zlive[z] = 0;
        for(int i = 0; i < nslots; i++)
            if(slotzone[i] == z + 1)
                full[i] = 0;
        break;
    case O_zfill: {
        z = live_zone();
        u64 lim = chance(&R, 60) && zsize[z] >= 512 ? 0 : 1 + rndn(&R, 1200);
        if(!strcmp(pr->name, "prof") && zsize[z] >= 8192 && chance(&R, 40))
            lim = ((4ULL << 20) / zsize[z]) * 93 / 100; /* nearly full, but not so far that it is marked as full */
        if(!strcmp(pr->name, "capacity") && zsize[z] >= 100)
            lim = chance(&R, 85) ? 0 : lim;
        int g = (int) rndn(&R, MAXGROUPS);
        emit(code, z, g, lim, 0, 0);
        gfull[g] = 1;
        break;
    }
    case O_report: emit(code, !strcmp(pr->name, "prof") ? 5 : rndn(&R, 6), live_zone(), 0, 0, 0); break;
    case O_verifyz: case O_zleaks: emit(code, live_zone(), 0, 0, 0, 0); break;
    case O_tagstale: emit(code, live_zone(), rnd(&R), 0, 0, 0); break;
    case O_verify: case O_flush: case O_usage: case O_tend: case O_barrier: case O_uafderef: case O_traces: case O_treset: case O_initagain: case O_guardcheck:
        emit(code, 0, 0, 0, 0, 0);
        break;
    case O_leaks: emit(code, rndn(&R, 2), 0, 0, 0, 0); break;
    case O_observe: emit(code, rndn(&R, 2), 0, 0, 0, 0); break;
    case O_bulk: {
        sz = gsize();
        u64 n = sz > 65536 ? 1 + rndn(&R, 20) : sz > 4096 ? 1 + rndn(&R, 300) : 1 + rndn(&R, 1500);
        if(sz > (8 << 20))
            n = 1;
        int g = (int) rndn(&R, MAXGROUPS);
        emit(code, g, n, sz, rndn(&R, 8) | 4, 0);
        gfull[g] = 1;
        break;
    }
    case O_bulkfree: {
        int g = (int) rndn(&R, MAXGROUPS);
        for(int t = 0; t < 20 && !gfull[g]; t++)
            g = (int) rndn(&R, MAXGROUPS);
        emit(code, g, chance(&R, 70) ? rndn(&R, 2) : hows(0), chance(&R, 50) ? 1 : 1 + rndn(&R, 5), rndn(&R, 2), 0);
        break;
    }
    case O_churn: {
        sz = gsize();
        u64 cap = sz > 65536 ? 60 : sz > 8192 ? 1500 : 4000, n = 20 + rndn(&R, cap);
        if(sz > (2 << 20))
            n = 5;
        emit(code, n, sz, 1 + rndn(&R, 64), chance(&R, 30) ? rndn(&R, sz / 8 + 1) : 0, rndn(&R, 3) ? rndn(&R, 2) : hows(0) % 5);
        break;
    }
    case O_protect: {
        int k = (int) rndn(&R, 4), t0 = curtid;
        if(P->nthreads < 2)
            return;
        if(k > (int) P->nthreads - 1)
            k = (int) P->nthreads - 1;
        int race = (int) rndn(&R, 2);
        emit(code, k, race, 1 + rndn(&R, 6), 0, 0);
        for(int i = 0, t = t0; i < k; i++) {
            t = (t + 1) % (int) P->nthreads;
            if(t == t0)
                break;
            curtid = t;
            s = empty_slot();
            sz = gsize();
            if(race && sz > 65536)
                sz = 1 + sz % 65536; /* the others read the protected root */
            emit(O_malloc, s, sz, rndn(&R, 8), 0, 0);
            put(s, sz, 0);
        }
        curtid = t0;
        break;
    }
    case O_null: emit(code, live_zone(), full_slot(), 0, 0, 0); break;
    case O_impossible: emit(code, rndn(&R, 19), rnd(&R), full_slot(), 0, 0); break;
    case O_zero: emit(code, rndn(&R, 4), rndn(&R, 4), rndn(&R, 4), empty_slot(), 0); break;
    case O_misuse: {
        int k = (int) rndn(&R, 28);
        s = (k == 12 || k == 16 || k == 22 || k == 23) ? livezone_of_slot() : full_slot();
        if(chance(&R, 15)) /* prefer a large block now and then */
            for(int t = 0; t < 40 && !(full[s] && ssize[s] > 65536); t++)
                s = (int) rndn(&R, nslots);
        emit(code, k, s, rnd(&R), 0, 0);
        break;
    }
    case O_corrupt: {
        s = full_slot();
        if(chance(&R, 25))
            for(int t = 0; t < 40 && !(full[s] && ssize[s] > 65536); t++)
                s = (int) rndn(&R, nslots);
        static const int tr[] = {0, 0, 1, 1, 2, 2, 3, 5};
        emit(code, chance(&R, 15) ? 2 : 0, s, rnd(&R), (!strcmp(pr->name, "destroy") && chance(&R, 60)) ? 5 : (u64) tr[rndn(&R, 8)], 0);
        break;
    }
    case O_memalign: {
        s = empty_slot();
        static const u64 al[] = {8, 16, 32, 8, 16, 32, 64, 128, 256, 1024, 4096, 4, 2, 1, 0, 3, 24, 12, 48};
        sz = chance(&R, 80) ? smallsize() : bigsize();
        emit(code, s, pick(al, 19), sz, rndn(&R, 5), rndn(&R, 4));
        put(s, sz, 0);
        break;
    }
    case O_cxxnew:
        s = empty_slot();
        sz = chance(&R, 4) ? 0 : gsize();
        emit(code, s, rndn(&R, 8), sz, rndn(&R, 4), 0);
        if(sz && feat.cpp)
            put(s, sz, 0);
        break;
    case O_memops: emit(code, full_slot(), rndn(&R, 6), rnd(&R) >> 8, chance(&R, 50) ? rndn(&R, 200) : rnd(&R) >> 8, chance(&R, 60) ? rndn(&R, 64) : rnd(&R) >> 8); break;
    case O_memover: emit(code, full_slot(), rndn(&R, 5), rndn(&R, 256), 0, 0); break;
    case O_uafplant: emit(code, full_slot(), rndn(&R, 4000), rndn(&R, 16), rnd(&R) >> 20, 0); break;
    case O_callpath: s = empty_slot(); sz = smallsize(); emit(code, s, rndn(&R, 12) | rndn(&R, chance(&R, 50) ? 2 : 64) << 8, sz, rndn(&R, 16), many_paths && chance(&R, 4) ? 300 + rndn(&R, 400) : 0); put(s, sz, 0); break;
    case O_cpu: emit(code, rndn(&R, 8), 0, 0, 0, 0); break;
    case O_uread: emit(code, rndn(&R, MAXSLOTS), rnd(&R), 0, 0, 0); break;
    case O_samplecorrupt: emit(code, rndn(&R, MAXSLOTS), rnd(&R), 0, 0, 0); break;
    default: emit(code, 0, 0, 0, 0, 0); break;
    }
}

static void gen_foot(void) { /* the same bounded work over and over: memory must stop growing */
    if(chance(&R, 30)) { /* a few large sizes, mixed: everything freed is found again or given back */
        int n = 2 + (int) rndn(&R, 3), rr = 30 + (int) rndn(&R, 40);
        u64 b[8], sum = 0;
        P->knob[K_BIG_FREE_LIST] = 0;
        for(int i = 0; i < n; i++) {
            b[i] = 65537 + rndn(&R, chance(&R, 50) ? 900000 : 200000);
            sum += b[i] + 8 * 4096 + 16384;
        }
        for(int r = 0; r < rr; r++) {
            u64 at[8];
            for(int i = 0; i < n; i++)
                at[i] = (u64) i;
            for(int i = n - 1; i > 0; i--) {
                int j = (int) rndn(&R, (u64) i + 1);
                u64 t = at[i];
                at[i] = at[j];
                at[j] = t;
            }
            curtid = (int) rndn(&R, P->nthreads);
            for(int i = 0; i < n; i++)
                emit(O_malloc, at[i], b[at[i]], 4, 0, 0);
            for(int i = 0; i < n; i++)
                emit(O_free, (at[i] + 1) % (u64) n, rndn(&R, 2), 0, 0, 0);
            curtid = 0;
            emit(O_barrier, 0, 0, 0, 0, 0);
            if(r == 2)
                emit(O_footmark, 0, 0, 0, 0, 0);
            else if(r > 2)
                emit(O_footcheck, sum * (u64) n, 0, 0, 0, 0); /* a larger block may serve a smaller request: n of each at most */
        }
        return;
    }
    int rounds = 6 + (int) rndn(&R, 6), zones_used = chance(&R, 50), threads = (int) P->nthreads;
    int ng = 1 + (int) rndn(&R, 3);
    u64 gs[4], gn[4], how[4], chn[2], chs[2];
    for(int i = 0; i < ng; i++) {
        gs[i] = gsize();
        gn[i] = gs[i] > 65536 ? 1 + rndn(&R, 10) : 1 + rndn(&R, gs[i] > 4096 ? 200 : 1500);
        how[i] = rndn(&R, 3);
    }
    for(int i = 0; i < 2; i++) {
        chs[i] = gsize();
        chn[i] = chs[i] > 65536 ? 10 + rndn(&R, 40) : 500 + rndn(&R, 4000);
    }
    int tend = chance(&R, 50);
    for(int r = 0; r < rounds; r++) {
        for(int i = 0; i < ng; i++) {
            curtid = i % threads;
            emit(O_bulk, i, gn[i], gs[i], 4, 0);
        }
        for(int i = 0; i < 2; i++) {
            curtid = i % threads;
            emit(O_churn, chn[i], chs[i], 1 + 13 * i, 0, i);
        }
        if(zones_used) {
            emit(O_znew, 0, 128, 0, 0, 0);
            emit(O_zfill, 0, 20, 200, 0, 0);
            emit(O_bulkfree, 20, 0, 1, 0, 0);
            emit(O_zdestroy, 0, 0, 0, 0, 0);
        }
        for(int i = 0; i < ng; i++) {
            curtid = (i + 1) % threads;
            emit(O_bulkfree, i, how[i], 1, r & 1, 0);
        }
        if(tend)
            emit(O_tend, 0, 0, 0, 0, 0);
        curtid = 0;
        if(r == 2)
            emit(O_footmark, 0, 0, 0, 0, 0);
        else if(r > 2)
            emit(O_footcheck, ((u64) (3 * (4 << 20)) + (4 << 20) * (u64) ng + 64 * 4096) * (P->cpus ? P->cpus : 1), 0, 0, 0, 0); /* zones belong to a size and a core */
    }
}

static void gen_pair(void) {
    curtid = 0;
    int sw = chance(&R, 60);
    u64 z1 = 16ULL << rndn(&R, 7);
    if(!sw)
        emit(O_edraw, 1, 0, 0, 0, 0);
    emit(O_znew, 1, z1, 0, 0, 0);
    int pre = 20 + (int) rndn(&R, 200);
    emit(O_zfill, 1, 1, pre, 0, 0);
    if(sw) {
        P->entropy_from = 0xffffffff;
        emit(O_eswitch, 0, 0, 0, 0, 0);
        if(chance(&R, 50)) { /* only the refill of an existing zone's slot cache is judged */
            emit(O_zfill, 1, 2, 700 + rndn(&R, 500), 0, 0);
            return;
        }
    } else
        P->entropy_from = 0;
    for(int i = 0; i < 4; i++) {
        emit(O_znew, 2 + i, chance(&R, 30) ? zonesize() % 60000 : 32ULL << rndn(&R, 9), 0, 0, 0);
        for(int k = 0; k < 12; k++) {
            emit(O_zalloc, 2 + i, 40 + i * 12 + k, feat.tagging ? 2 : 0, 0, 0);
            if(k % 3 == 0)
                emit(O_free, 40 + i * 12 + k, feat.tagging ? 4 : 1, 0, 0, 0);
        }
    }
    for(int i = 0; i < 40; i++) {
        emit(O_malloc, 100 + i, i % 5 == 4 ? bigsize() % (1 << 20) + 65537 : smallsize(), 0, 0, 0);
        if(i % 4 == 3)
            emit(O_free, 100 + i - 1, 1, 0, 0, 0);
    }
}

void plan_gen(plan_t *p, const char *profile, u64 seed) {
    const prof_t *pr = profs;
    while(pr->name && strcmp(pr->name, profile))
        pr++;
    if(!pr->name) {
        fprintf(stderr, "unknown profile %s\n", profile);
        exit(2);
    }
    P = p;
    memset(p, 0, sizeof *p);
    memset(full, 0, sizeof full);
    memset(zlive, 0, sizeof zlive);
    memset(gfull, 0, sizeof gfull);
    memset(slotzone, 0, sizeof slotzone);
    memset(ssize, 0, sizeof ssize);
    memset(zsize, 0, sizeof zsize);
    memset(few, 0, sizeof few);
    nslots = sizemode = bigs_live = huge_used = curtid = preprob = maxacc = 0;
    snprintf(p->variant, sizeof p->variant, "%s", SIM_VARIANT);
    snprintf(p->profile, sizeof p->profile, "%s", profile);
    u64 hv = 1469598103934665603ULL;
    for(const char *c = profile; *c; c++)
        hv = (hv ^ (u8) *c) * 1099511628211ULL;
    R.s = mix64(seed * 2 + 1) ^ hv;
    p->seed = seed;
    p->entropy = rnd(&R);
    p->entropy2 = rnd(&R);
    p->entropy_from = 0xffffffff;
    p->place = chance(&R, 45) ? PLACE_HINT : chance(&R, 50) ? PLACE_COMPACT : PLACE_REUSE;
    p->lazy = (u32) rndn(&R, 3);
    p->huge = chance(&R, 20);
    p->place_seed = rnd(&R);
    p->cpus = feat.cpu_pin ? 1 + (u32) rndn(&R, 4) : 1;
    p->init = feat.ctor ? (chance(&R, 80) ? INIT_CTOR : chance(&R, 50) ? INIT_EXPLICIT : INIT_CTOR_TWICE) : INIT_EXPLICIT;
    if((pr->flags & G_LAZY) && chance(&R, strcmp(profile, "init") && strcmp(profile, "zero") ? 12 : 75))
        p->init = INIT_LAZY;
    p->nthreads = (u32) (pr->tmin + (int) rndn(&R, (u64) (pr->tmax - pr->tmin + 1)));
    if(chance(&R, 20))
        p->nthreads = (u32) pr->tmin;
    if(!feat.threads)
        p->nthreads = 1;
    p->flags = RF_STRICT_LEAK;
    if((pr->flags & G_DESTROY) || chance(&R, 25))
        p->flags |= RF_DESTROY;
    if(chance(&R, 15))
        p->flags |= RF_NOFREEALL;
    if(pr->flags & G_KNOBS) {
        if(chance(&R, 45))
            p->knob[K_ZONE_RETIRE] = 1L << rndn(&R, 3);
        if(chance(&R, 40))
            p->knob[K_QUAR] = 2 + (long) rndn(&R, 14);
    }
    if(pr->flags & G_BIGKNOBS) {
        if(chance(&R, 45))
            p->knob[K_BIG_RETIRE] = 2 + (long) rndn(&R, 4);
        if(chance(&R, 45))
            p->knob[K_BIG_FREE_LIST] = 2 + (long) rndn(&R, 6);
        if((pr->flags & G_FEWBIG) && chance(&R, 40))
            p->knob[K_BIG_FREE_LIST] = 1 + (long) rndn(&R, 2);
    }
    if(!strcmp(profile, "retire") && chance(&R, 80))
        p->knob[K_ZONE_RETIRE] = 1L << rndn(&R, 3);
    if(feat.sane) {
        p->knob[K_SANE_ODDS] = !strcmp(profile, "sample") || !strcmp(profile, "uninit") || chance(&R, 60) ? 2 + (long) rndn(&R, 4) : 0;
        if(!strcmp(profile, "corrupt") || !strcmp(profile, "misuse"))
            p->knob[K_SANE_ODDS] = 0;
    }
    if(feat.prof)
        p->knob[K_PROF_ODDS] = strcmp(profile, "prof") ? 500 + (long) rndn(&R, 4000) : 2 + (long) rndn(&R, 3);
    if(feat.uaf && !strcmp(profile, "uaf"))
        p->knob[K_UAF_ODDS] = 2;
    if(pr->flags & G_MAXZ)
        p->knob[K_MAX_ZONES] = 24 + (long) rndn(&R, 24);
    if(pr->flags & G_BENIGN) {
        int n = 1 + (int) rndn(&R, 5);
        static const u32 bk[] = {F_MADVISE, F_MLOCK, F_HUGETLB, F_MADVISE, F_PRCTL};
        for(int i = 0; i < n; i++)
            p->fault[p->nfaults++] = (fault_t){bk[rndn(&R, 5)], (u32) (1 + rndn(&R, 60)), chance(&R, 50) ? 1 : 1000000, chance(&R, 50) ? ENOMEM : EINVAL};
    }
    if(pr->flags & G_FAULTS) {
        int n = 1 + (chance(&R, 25) ? (int) rndn(&R, 3) : 0);
        for(int i = 0; i < n; i++) {
            static const u32 fk[] = {F_MMAP, F_MMAP, F_MMAP, F_MPROTECT, F_MPROTECT, F_GETRANDOM, F_SHORTRANDOM, F_MUNMAP, F_MADVISE, F_MLOCK, F_SIGACTION, F_PRCTL, F_OPEN, F_HUGETLB};
            u32 k = fk[rndn(&R, 14)];
            u32 nth = chance(&R, 35) ? 1 + (u32) rndn(&R, 45) : 30 + (u32) rndn(&R, chance(&R, 50) ? 60 : 400);
            if(k == F_MUNMAP || k == F_HUGETLB || k == F_SIGACTION || k == F_PRCTL || k == F_MLOCK || k == F_OPEN)
                nth = 1 + (u32) rndn(&R, 12);
            if(feat.uninit && chance(&R, 35)) {
                k = F_UFFD;
                nth = 1 + (u32) rndn(&R, chance(&R, 50) ? 3 : 20);
            }
            u32 cnt = chance(&R, 60) ? 1 : chance(&R, 50) ? 2 + (u32) rndn(&R, 5) : 1000000;
            static const int er[] = {ENOMEM, EAGAIN, EPERM, EINVAL, ENOSYS, EINTR};
            p->fault[p->nfaults++] = (fault_t){k, nth, cnt, (k == F_MMAP || k == F_MPROTECT || k == F_MUNMAP) ? ENOMEM : er[rndn(&R, 6)]};
        }
    }
    memset(full, 0, sizeof full);
    memset(zlive, 0, sizeof zlive);
    memset(gfull, 0, sizeof gfull);
    memset(slotzone, 0, sizeof slotzone);
    nslots = 8 + (int) rndn(&R, chance(&R, 50) ? 24 : MAXSLOTS - 8);
    sizemode = pr->sizes;
    many_paths = feat.prof && chance(&R, 25);
    huge_used = 0;
    for(int i = 0; i < 6; i++) {
        static const u64 fs[] = {16, 32, 48, 64, 100, 128, 200, 256, 512, 1000, 1024, 2048, 4096, 8000, 8192, 12000, 16383, 3000};
        few[i] = pr->flags & G_FEWBIG && i > 0 ? 65537 + rndn(&R, 40) * 4096 : pick(fs, 18);
        if(i == 5 && (!strcmp(profile, "foot") || chance(&R, 20)))
            few[i] = bigsize() % (1 << 20) + 65537;
    }
    preprob = (int) (chance(&R, 20) ? 0 : chance(&R, 50) ? 8 + rndn(&R, 30) : 40 + rndn(&R, 60));
    maxacc = chance(&R, 70) ? 400 : 20000;
    curtid = 0;
    if(pr->flags & G_FOOT) {
        gen_foot();
        return;
    }
    if(pr->flags & G_PAIR) {
        p->flags |= RF_PAIR | RF_NOFREEALL;
        p->flags &= ~(u32) RF_DESTROY;
        p->place = PLACE_COMPACT;
        gen_pair();
        return;
    }
    if((pr->flags & G_MAXZ) && chance(&R, 15)) { /* so many zones of small chunks that their bitmaps add up to megabytes */
        p->knob[K_MAX_ZONES] = 72;
        int n = 30 + (int) rndn(&R, MAXZONES - GENZONES - 29);
        for(int i = 0; i < n; i++)
            emit(O_znew, (u64) (GENZONES + i), 16 + rndn(&R, 17), rndn(&R, 2), 0, 0);
        emit(O_usage, 0, 0, 0, 0, 0);
        for(int i = (int) rndn(&R, 3); i < n; i += 1 + (int) rndn(&R, 3))
            emit(O_zdestroy, (u64) (GENZONES + i), 0, 0, 0, 0);
    }
    if(feat.tagging && !strcmp(profile, "tags") && chance(&R, 30)) { /* a zone that is used up, emptied, and emptied again and again */
        int z = GENZONES + (int) rndn(&R, 4);
        emit(O_znew, (u64) z, 4096ULL << rndn(&R, 4), 0, 0, 0);
        emit(O_zfill, (u64) z, 0, 2000, rndn(&R, 8), 0);
        emit(O_bulkfree, 0, rndn(&R, 2) * 4, 1, 0, 0);
        emit(O_flush, 0, 0, 0, 0, 0);
        for(int i = 0; i < 14; i++) {
            emit(O_zalloc, (u64) z, 0, 2 * rndn(&R, 2), 0, 0);
            emit(O_free, 0, rndn(&R, 4) ? 4 : 1, 0, 0, 0);
        }
        emit(O_zdestroy, (u64) z, 0, 0, 0, 0);
    }
    int wt[O_COUNT];
    parse_weights(pr->w, wt);
    if(!feat.cpp)
        wt[O_cxxnew] = 0;
    if(!feat.tagging)
        wt[O_tagcheck] = wt[O_tagstale] = 0;
    if(!feat.memcpy_s && !feat.memset_s)
        wt[O_memops] = wt[O_memover] = 0;
    if(!feat.prof)
        wt[O_callpath] = wt[O_traces] = wt[O_treset] = 0;
    if(!feat.uaf)
        wt[O_uafplant] = wt[O_uafderef] = 0;
    if(!feat.sane || feat.uninit)
        wt[O_samplecorrupt] = 0;
    if(!feat.uninit)
        wt[O_uread] = 0;
    if(!feat.cpu_pin)
        wt[O_cpu] = 0;
    if(pr->flags & G_SWARM)
        for(int i = 0; i < O_COUNT; i++) {
            if(i == O_malloc || i == O_free)
                continue;
            if(chance(&R, 25))
                wt[i] = 0;
            else if(chance(&R, 15))
                wt[i] *= 4;
        }
    int tot = 0;
    for(int i = 0; i < O_COUNT; i++)
        tot += wt[i];
    u32 target = (u32) pr->omin + (u32) rndn(&R, (u64) (pr->omax - pr->omin + 1));
    if(chance(&R, 6))
        target *= 3;
    int sticky = 30 + (int) rndn(&R, 60), phase = 0;
    if(wt[O_znew] && chance(&R, 60)) {
        int n = 1 + (int) rndn(&R, 3);
        for(int i = 0; i < n; i++)
            gen_op(O_znew, pr);
    }
    while(p->nops < target) {
        if(!chance(&R, sticky))
            curtid = (int) rndn(&R, p->nthreads);
        /* alternate between filling and draining */
        if(chance(&R, 2))
            phase = (int) rndn(&R, 3);
        int k = (int) rndn(&R, (u64) tot), c = 0;
        while(k >= wt[c])
            k -= wt[c++];
        if(phase == 1 && c == O_free && chance(&R, 60))
            c = O_malloc;
        if(phase == 2 && (c == O_malloc || c == O_zalloc) && chance(&R, 60))
            c = O_free;
        gen_op(c, pr);
    }
}

/* ---------------------------------------------------------------- text form */
void plan_print(plan_t *p, FILE *f) {
    fprintf(f, "isosim-plan 1\nvariant %s\nprofile %s\nseed %llu\nentropy %llx %llx %u\n", p->variant, p->profile, (unsigned long long) p->seed,
            (unsigned long long) p->entropy, (unsigned long long) p->entropy2, p->entropy_from);
    fprintf(f, "env place %u lazy %u huge %u init %u threads %u flags %u cpus %u stepk %u place_seed %llx\n", p->place, p->lazy, p->huge, p->init, p->nthreads,
            p->flags, p->cpus, p->stepk, (unsigned long long) p->place_seed);
    for(int i = 0; i < 16; i++)
        if(p->knob[i])
            fprintf(f, "knob %d %ld\n", i, p->knob[i]);
    for(u32 i = 0; i < p->nfaults; i++)
        fprintf(f, "fault %u %u %u %d\n", p->fault[i].kind, p->fault[i].nth, p->fault[i].count, p->fault[i].err);
    for(u32 i = 0; i < p->nops; i++) {
        op_t *o = &p->op[i];
        fprintf(f, "op t%u %s %llu %llu %llu %llu %llu", o->tid, op_names[o->code], (unsigned long long) o->arg[0], (unsigned long long) o->arg[1],
                (unsigned long long) o->arg[2], (unsigned long long) o->arg[3], (unsigned long long) o->arg[4]);
        for(int k = 0; k < o->npre; k++)
            fprintf(f, " @%u,%u,%u", o->pre[k].s, o->pre[k].a, o->pre[k].d);
        fprintf(f, "\n");
    }
    fprintf(f, "end\n");
}
int plan_parse(plan_t *p, FILE *f) {
    char line[1024];
    int ok = 0;
    memset(p, 0, sizeof *p);
    while(fgets(line, sizeof line, f)) {
        unsigned long long a, b, c, d, e;
        if(line[0] == '#')
            continue;
        if(sscanf(line, "variant %47s", p->variant) == 1 || sscanf(line, "profile %15s", p->profile) == 1)
            continue;
        if(sscanf(line, "seed %llu", &a) == 1)
            p->seed = a;
        else if(sscanf(line, "entropy %llx %llx %u", &a, &b, &p->entropy_from) == 3)
            p->entropy = a, p->entropy2 = b;
        else if(sscanf(line, "env place %u lazy %u huge %u init %u threads %u flags %u cpus %u stepk %u place_seed %llx", &p->place, &p->lazy, &p->huge, &p->init,
                       &p->nthreads, &p->flags, &p->cpus, &p->stepk, &a) == 9)
            p->place_seed = a;
        else if(!strncmp(line, "knob ", 5)) {
            int k;
            long v;
            if(sscanf(line, "knob %d %ld", &k, &v) == 2 && k >= 0 && k < 16)
                p->knob[k] = v;
        } else if(!strncmp(line, "fault ", 6)) {
            fault_t x;
            if(p->nfaults < MAXFAULTS && sscanf(line, "fault %u %u %u %d", &x.kind, &x.nth, &x.count, &x.err) == 4)
                p->fault[p->nfaults++] = x;
        } else if(!strncmp(line, "op ", 3)) {
            unsigned t;
            char nm[32];
            int used = 0;
            if(p->nops >= MAXOPS || sscanf(line, "op t%u %31s %llu %llu %llu %llu %llu%n", &t, nm, &a, &b, &c, &d, &e, &used) < 7)
                return 0;
            op_t *o = &p->op[p->nops++];
            o->tid = (u8) (t % MAXTHREADS);
            o->arg[0] = a, o->arg[1] = b, o->arg[2] = c, o->arg[3] = d, o->arg[4] = e;
            int code = -1;
            for(int i = 0; i < O_COUNT; i++)
                if(!strcmp(nm, op_names[i]))
                    code = i;
            if(code < 0)
                return 0;
            o->code = (u8) code;
            char *q = line + used;
            while((q = strchr(q, '@')) && o->npre < MAXPRE) {
                pre_t x;
                if(sscanf(q, "@%u,%u,%u", &x.s, &x.a, &x.d) == 3)
                    o->pre[o->npre++] = x;
                q++;
            }
        } else if(!strncmp(line, "end", 3))
            ok = 1;
    }
    return ok;
}
