/* Reference model of the heap: what a correct allocator may do. */
#pragma once
#include "sim.h"

enum { N_LIVE, N_QUAR, N_FREED, N_MOVING, N_PERM };
typedef struct node {
    u64 s, e; /* extent the caller may use: request, or the reported size once known */
    u64 req, rep, seed, eff;
    u64 push_min, push_max, end_ev, free_seq;
    struct node *l, *r;
    u32 uid, pri, region, mark;
    int zone;
    u8 state, big, sampled, tagged, tag, tagknown;
    u8 touched; /* pattern written */
    u8 how;     /* how it was freed */
    u64 filled; /* bytes covered by the pattern */
} node_t;

typedef struct {
    u64 start; /* first address of the accessible part */
    u64 chunk;
    int zone;
    u32 cpu;
    u64 allocs, secret;
    long nlive, nqueued, nperm;
    u8 known, gone, kind; /* kind: 0 zone, 1 big, 2 sample */
} region_t;

typedef struct {
    u32 user, meta;
    u64 s, size, meta_s;
    int served;
    u8 cached, perm, dead;
} bigrec_t;

typedef struct {
    void *h;
    u8 live, destroying, busy_excl;
    int nbusy;
    u64 req, chunk, adv;
    u32 ids[8], nids; /* the mappings made for it */
    u32 region;
    long nlive, nfreed;
} zone_t;

typedef struct { node_t *n; u8 busy; int zhold; } slot_t;
typedef struct { node_t **v; u32 n, cap; u8 busy; u64 size; int zone; } group_t;
extern slot_t slots[MAXSLOTS];
extern group_t groups[MAXGROUPS];
extern zone_t zones[MAXZONES];
