/* Included by the hooks guarded with ISOALLOC_SIM (no include guard: included
 * once after each group of constants). Each constant that exists at that point
 * becomes a run-time knob whose default is the shipped value, so a build with
 * all knobs at their defaults behaves as shipped. */
#ifndef SIM_KNOB_DECLS
#define SIM_KNOB_DECLS
extern long sim_knob(int which, long shipped);
enum {
    K_ZONE_RETIRE,
    K_BIG_RETIRE,
    K_QUAR,
    K_BIG_FREE_LIST,
    K_MAX_ZONES,
    K_UAF_ODDS,
    K_SANE_ODDS,
    K_PROF_ODDS,
    K_COUNT
};
#endif

#if defined(ZONE_ALLOC_RETIRE) && !defined(SIMK_ZONE_RETIRE)
#define SIMK_ZONE_RETIRE
enum { SHIPPED_ZONE_RETIRE = ZONE_ALLOC_RETIRE };
#undef ZONE_ALLOC_RETIRE
#define ZONE_ALLOC_RETIRE ((int) sim_knob(K_ZONE_RETIRE, SHIPPED_ZONE_RETIRE))
#endif
#if defined(BIG_ZONE_ALLOC_RETIRE) && !defined(SIMK_BIG_RETIRE)
#define SIMK_BIG_RETIRE
enum { SHIPPED_BIG_RETIRE = BIG_ZONE_ALLOC_RETIRE };
#undef BIG_ZONE_ALLOC_RETIRE
#define BIG_ZONE_ALLOC_RETIRE ((int) sim_knob(K_BIG_RETIRE, SHIPPED_BIG_RETIRE))
#endif
#if defined(BIG_ZONE_MAX_FREE_LIST) && !defined(SIMK_BIG_FREE_LIST)
#define SIMK_BIG_FREE_LIST
enum { SHIPPED_BIG_FREE_LIST = BIG_ZONE_MAX_FREE_LIST };
#undef BIG_ZONE_MAX_FREE_LIST
#define BIG_ZONE_MAX_FREE_LIST ((int) sim_knob(K_BIG_FREE_LIST, SHIPPED_BIG_FREE_LIST))
#endif
#if defined(CHUNK_QUARANTINE_SZ) && !defined(SIMK_QUAR)
#define SIMK_QUAR
enum { SHIPPED_QUAR = CHUNK_QUARANTINE_SZ };
#undef CHUNK_QUARANTINE_SZ
#define CHUNK_QUARANTINE_SZ ((size_t) sim_knob(K_QUAR, SHIPPED_QUAR))
#endif
#if defined(MAX_ZONES) && !defined(SIMK_MAX_ZONES)
#define SIMK_MAX_ZONES
enum { SHIPPED_MAX_ZONES = MAX_ZONES };
#undef MAX_ZONES
#define MAX_ZONES ((int) sim_knob(K_MAX_ZONES, SHIPPED_MAX_ZONES))
#endif
#if defined(UAF_PTR_PAGE_ODDS) && !defined(SIMK_UAF_ODDS)
#define SIMK_UAF_ODDS
enum { SHIPPED_UAF_ODDS = UAF_PTR_PAGE_ODDS };
#undef UAF_PTR_PAGE_ODDS
#define UAF_PTR_PAGE_ODDS ((int) sim_knob(K_UAF_ODDS, SHIPPED_UAF_ODDS))
#endif
#if defined(SANITY_SAMPLE_ODDS) && !defined(SIMK_SANE_ODDS)
#define SIMK_SANE_ODDS
enum { SHIPPED_SANE_ODDS = SANITY_SAMPLE_ODDS };
#undef SANITY_SAMPLE_ODDS
#define SANITY_SAMPLE_ODDS ((int) sim_knob(K_SANE_ODDS, SHIPPED_SANE_ODDS))
#endif
#if defined(PROFILER_ODDS) && !defined(SIMK_PROF_ODDS)
#define SIMK_PROF_ODDS
enum { SHIPPED_PROF_ODDS = PROFILER_ODDS };
#undef PROFILER_ODDS
#define PROFILER_ODDS ((int) sim_knob(K_PROF_ODDS, SHIPPED_PROF_ODDS))
#endif
/* The size of the sample table is an array bound: a build-time constant */
#if defined(MAX_SANE_SAMPLES) && defined(SIM_SMALL_SAMPLE_TABLE) && !defined(SIMK_SANE_MAX)
#define SIMK_SANE_MAX
#undef MAX_SANE_SAMPLES
#define MAX_SANE_SAMPLES SIM_SMALL_SAMPLE_TABLE
#endif
