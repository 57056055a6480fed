#!/usr/bin/env python3
"""Writes properties.jsonl. Kept so that the property list has one readable source."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CORE = "src/iso_alloc.c"; IFC = "src/iso_alloc_interfaces.c"; DS = "include/iso_alloc_ds.h"
SAN = "src/iso_alloc_sanity.c"; UTIL = "src/iso_alloc_util.c"; TAGS = "src/iso_alloc_mem_tags.c"; PROF = "src/iso_alloc_profiler.c"

p("C01", "Live allocations never overlap and keep their contents",
  "Two allocations that are live at the same time never share a byte, whichever call, thread or private zone produced them. Bytes a caller writes inside a live allocation stay exactly as written until that caller changes or frees it; the allocator never writes there, and neither does any use of another allocation. No allocation ever lies over memory the allocator uses for itself.",
  ["histories", "schedules", "inputs", "configurations"],
  "every sequence of allocate/free/resize/zone calls, by any number of threads under any interleaving, any kernel placement of mappings, every build configuration that compiles",
  "The unit tests allocate and free in a few fixed loops and mostly never read contents back; overlap needs a particular history (slot cache refills, retirement, lists of large allocations) or interleaving.",
  [CORE, IFC, DS, SAN],
  [("slot bitmap and in-use check before a chunk is handed out", "src/iso_alloc.c:_iso_alloc_bitslot_from_zone"), ("free slot cache", "src/iso_alloc.c:fill_free_bit_slots/get_next_free_bit_slot"), ("one lock over small-chunk state", "include/iso_alloc_internal.h:LOCK_ROOT"), ("used/free lists of large allocations", "src/iso_alloc.c:_iso_big_alloc/iso_find_big_zone")],
  [("zone bitmap", "two bits per chunk: free, in use, was used, canary/permanent", "include/iso_alloc_internal.h:BITS_PER_CHUNK")],
  ["return values of every allocating call", "bytes of live allocations before free and at the end of a run"])

p("C02", "Every allocation is as large as asked, aligned, and honestly sized",
  "A successful allocation gives at least the requested number of writable bytes at an address aligned to at least 8 bytes. The size the allocator later reports for it is never below the request, all of the reported bytes are usable, and the report does not change while it is live. A request that cannot be met (element-count overflow, sizes near the maximum integer, above the 4 GB cap) returns NULL and never a smaller block.",
  ["inputs", "histories", "schedules"],
  "all request sizes from 0 to the maximum integer including every size-class and page boundary, through every allocating call, in any heap state",
  "Tests use a dozen sizes; wrap-around, off-by-one at class edges and a report that depends on list position need specific sizes in specific heap states.",
  [CORE, IFC, UTIL],
  [("size rounding", "include/iso_alloc_internal.h:ALIGN_SZ_UP, ROUND_UP_PAGE"), ("size class selection", "src/iso_alloc.c:find_suitable_zone/is_zone_usable"), ("size query", "src/iso_alloc.c:_iso_chunk_size"), ("overflow checks", "src/iso_alloc.c:_iso_calloc, src/iso_alloc_interfaces.c:iso_reallocarray")],
  None, ["return value, reported size, last requested and last reported byte"])

p("C03", "Zero-initialised allocation is entirely zero",
  "Every byte of the requested extent of a zero-initialising allocation reads as zero when it is returned, whatever the memory held before: earlier user data, canaries, poison, or pages the kernel has or has not discarded.",
  ["histories", "inputs", "schedules"],
  "all element counts and sizes, all previous contents and reuse histories, all choices the kernel makes about discarded pages",
  "The tests zero-check memory that is almost always fresh from the kernel; reused chunks and lazily discarded pages are not covered.",
  [CORE, IFC], [("explicit clearing of the whole request", "src/iso_alloc.c:_iso_calloc"), ("canary removed before reuse", "src/iso_alloc.c:_iso_alloc_bitslot_from_zone")],
  None, ["all bytes of the result"])

p("C04", "Resizing preserves contents and releases the old block exactly once",
  "A successful resize returns a block of at least the new size whose first min(old size, new size) bytes equal the old block's, and the old block is released exactly once. A failed resize returns NULL and leaves the old block live and unchanged. Resizing NULL allocates, and resizing to zero frees.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "all old/new size pairs including small-to-large, large-to-small and large-to-large, any heap state, concurrent use of other blocks",
  "Tests resize through one growth loop; shrinking from large blocks, failing resizes and interleavings with other list operations are not exercised.",
  [IFC, CORE], [("allocate, copy, sized free", "src/iso_alloc_interfaces.c:iso_realloc"), ("size lookup that must not disturb the lists", "src/iso_alloc.c:_iso_chunk_size/iso_find_big_zone")],
  None, ["prefix bytes of the new block", "later free of any other block", "leak count"])

p("C05", "String duplication yields a terminated, bounded copy",
  "Duplicating a string returns a fresh block that holds exactly the source bytes followed by a terminating zero; the bounded form holds the first min(length, bound) bytes followed by a terminating zero. Neither form reads past the bound or past the source's terminator, and neither writes outside the new block. Duplicating into a private zone returns a chunk of that zone.",
  ["inputs", "histories"],
  "all string lengths 0 to beyond the largest size class, all bounds including 0, equal and larger than the length, sources that end at an unmapped page, recycled destination memory",
  "The tests duplicate one short literal into fresh zeroed memory, where a missing terminator is invisible.",
  [IFC], [("length, allocation and copy", "src/iso_alloc_interfaces.c:iso_strdup_from_zone, iso_strndup_from_zone")],
  None, ["bytes and terminator of the result", "faults on the source's guard page"])

p("C06", "Invalid and repeated frees stop the program before memory is reissued",
  "Freeing a block twice, freeing a pointer that is not the start of an allocation (interior, misaligned, or outside the heap), freeing a permanently freed block or a never-issued decoy block, or freeing with a size larger than the block aborts the process. The abort comes at the latest when the delayed-free queue is next drained, and before the block in question is handed out again after that. (A block freed by an immediate and a queued call is judged when the queue is drained, if it was not reissued meanwhile.)",
  ["histories", "inputs", "schedules"],
  "all kinds of invalid free applied to small, private-zone and large blocks, at any point of a history, from any thread",
  "Each crash test performs one invalid free in a nearly empty heap; detection depends on the queue position, neighbouring state, list position and freeing path.",
  [CORE], [("bit state and multiple-of-chunk checks", "src/iso_alloc.c:iso_free_chunk_from_zone"), ("exact-match lookup of large blocks", "src/iso_alloc.c:iso_find_big_zone"), ("size check on sized free", "src/iso_alloc.c:_iso_free_size"), ("alignment check", "src/iso_alloc.c:_iso_free")],
  None, ["process abort", "addresses returned after the invalid free"])

p("C07", "Overwritten freed memory and decoys are detected",
  "If the first or last eight bytes of a freed small block, of a decoy block, or a boundary field of a large block's bookkeeping are changed by stray writes, the process aborts no later than the next whole-heap verification, the reissue of that block, or the free of a directly adjacent block. The lowest-addressed byte of every in-band check value is zero, so that string reads cannot run through it.",
  ["histories", "inputs", "schedules"],
  "any freed block in any zone, any subset of its check bytes, any later operation order",
  "The tests corrupt one fixed block in one fixed way; the check on a given block depends on its neighbours, zone and state bits.",
  [CORE, SAN], [("check values at both ends of free chunks", "src/iso_alloc.c:write_canary/check_canary"), ("neighbour checks on free", "src/iso_alloc.c:iso_free_chunk_from_zone"), ("verification walk", "src/iso_alloc_sanity.c:_verify_zone/_verify_all_zones/_verify_big_zone_list")],
  None, ["process abort on verify, reissue, neighbour free"])

p("C08", "Correct programs are never aborted and the heap always verifies",
  "A program that follows the interface rules never makes the allocator abort, fault, or report corruption, for any valid sizes, sequence or interleaving, and verifying the heap at any moment by any thread succeeds. This also holds when the kernel refuses optional requests (advice calls, huge pages, memory locking).",
  ["histories", "schedules", "inputs", "configurations", "fault_sequences"],
  "all valid programs over the whole public interface, all interleavings, all outcomes of calls whose failure is tolerable, all build configurations",
  "A self-inflicted abort needs a particular zone size, retirement, lookup-table collision or a race between verification and list updates; fixed single runs rarely meet these.",
  [CORE, SAN, UTIL], [("internal consistency aborts", "src/iso_alloc.c:LOG_AND_ABORT sites"), ("verification", "src/iso_alloc_sanity.c:_verify_all_zones"), ("optional kernel calls", "src/iso_alloc_util.c:mmap_pages, dont_need_pages")],
  None, ["absence of abort and signal", "heap verification after every phase"])

p("C09", "Concurrent calls always complete",
  "Every call made by any thread finishes within a bounded number of its own steps once the other threads keep running; no set of calls can deadlock, and every lock is released on every path, including error returns. After a thread protects the heap, allocations by other threads wait and none completes; after it unprotects the heap they all complete. (Frees during protection fault by design.)",
  ["schedules", "histories", "configurations"],
  "all interleavings of any mix of public calls by several threads, with blocking and spinning locks",
  "The thread tests run whatever interleaving the OS picks; a missed unlock or a lock-order inversion on a rare path does not show.",
  [CORE, SAN, "include/iso_alloc_internal.h"], [("root, large-free and large-used locks", "include/iso_alloc_internal.h:LOCK_ROOT, LOCK_BIG_ZONE_FREE, LOCK_BIG_ZONE_USED"), ("unlock on every return", "src/iso_alloc.c:_iso_alloc, iso_find_big_zone, _iso_big_alloc"), ("protect/unprotect hold the root lock", "src/iso_alloc.c:_iso_alloc_protect_root")],
  None, ["completion of every call", "lock state when all threads are idle"])

p("C10", "Freed small blocks are quarantined and freed exactly once",
  "A block released by plain free is not handed out again until the delayed-free queue has been drained: by its 64 entries filling up, by an explicit flush, or by destruction of a private zone. Every queued block is then released exactly once; none is lost, duplicated, or released early, for any interleaving of frees and flushes.",
  ["histories", "schedules"],
  "all orders of frees, flushes and zone destructions over all threads",
  "Tests flush at convenient moments in one thread; a queue slip shows only at exact fill levels or when two threads meet at the boundary.",
  [CORE], [("delayed-free queue", "src/iso_alloc.c:_iso_free, flush_chunk_quarantine")],
  [("queue", "addresses freed but not yet released", "src/iso_alloc.c:_root->chunk_quarantine")], ["addresses returned after free", "leak count after flush"])

p("C11", "Permanently freed memory is never handed out again",
  "Once a block has been released permanently, no later allocation overlaps it while its zone exists, and its old contents are no longer readable: a small block is overwritten at once and a large block becomes inaccessible at once, together with its bookkeeping only. Neighbouring allocations are unaffected.",
  ["histories", "schedules"],
  "all histories that continue after a permanent free, for small, private-zone and large blocks, in any heap layout",
  "The test frees a block permanently and exits soon after; reissue would appear only after slot caches refill, and stray protection of a neighbour only for some placements.",
  [CORE], [("permanent state bits and poison", "src/iso_alloc.c:iso_free_chunk_from_zone"), ("inaccessible pages", "src/iso_alloc.c:iso_free_big_zone")],
  None, ["later addresses", "old bytes", "page protections"])

p("C12", "Private zones are isolated and honour their capacity",
  "Chunks of a private zone come only from that zone's memory, all have the zone's chunk size, and no general allocation or other private zone ever receives memory of it while it exists. At least the advertised number of chunks can be live in a zone at once; beyond its capacity it returns NULL, and after chunks are freed they become available again. Requests that a zone cannot serve never yield a usable-looking zone or block.",
  ["inputs", "histories", "schedules"],
  "all zone chunk sizes up to and beyond the small limit, fill/drain histories, several zones and threads at once",
  "Tests use a handful of power-of-two zones and rarely fill them to the last chunk.",
  [CORE, IFC], [("zone creation and capacity", "src/iso_alloc.c:_iso_new_zone, src/iso_alloc_interfaces.c:iso_zone_chunk_count"), ("zone selection excludes private zones", "src/iso_alloc.c:find_suitable_zone, populate_zone_cache"), ("exhaustion", "src/iso_alloc.c:is_zone_usable")],
  None, ["address ranges per zone", "number of live chunks at exhaustion"])

p("C13", "Destroying or retiring a zone revokes its memory and nothing else",
  "When a private zone is destroyed, its memory and check data are returned to the operating system and no later block is served from the old mapping; pointers into it fault or are rejected rather than silently aliasing. General zones that have served 32 times their capacity and are empty are replaced in the same way. All other allocations, zones and handles keep working, and the replacement is usable.",
  ["histories", "schedules", "configurations"],
  "all points of a history at which a zone is destroyed or reaches retirement, with other zones live and other threads active, all kernel placements of the new mapping",
  "Retirement needs tens of thousands of operations on an otherwise empty zone; the tests hit it only for one or two sizes and check nothing afterwards.",
  [CORE], [("destroy and replace", "src/iso_alloc.c:_iso_alloc_destroy_zone_unlocked"), ("retirement rule", "src/iso_alloc.c:_is_zone_retired"), ("lookup tables", "src/iso_alloc.c:_iso_new_zone")],
  None, ["mapping table after destroy", "operations on surviving zones"], "guarded build hook lowers the retirement factor for part of the runs")

p("C14", "Guard pages surround all allocator memory",
  "The pages directly below and above every region that holds small user chunks, slot state, tags, zone records, the delayed-free queue, lookup data or root state are inaccessible at all times after that region is set up; with large-allocation guards configured, so are those around large allocations and their bookkeeping. They stay inaccessible for as long as the region exists.",
  ["histories", "schedules", "configurations"],
  "every region ever created in any history, including replacements after retirement, at every point of the run, for all kernel placements",
  "Tests never look at page protections beyond overflow of one allocation.",
  [UTIL, CORE], [("guarded mappings", "src/iso_alloc_util.c:mmap_guarded_rw_pages, create_guard_page"), ("zone guards", "src/iso_alloc.c:_iso_new_zone")],
  None, ["simulated page table after every mapping call and at quiescence"])

p("C15", "Zero-size allocations are unusable but freeable",
  "Every zero-size request through the plain allocation call yields the same non-NULL address whose page can be neither read nor written. It reports size zero, can be freed any number of times, and never disturbs other allocations; freeing it with a non-zero size aborts. This holds from the very first allocation of the process.",
  ["histories", "inputs", "schedules"],
  "zero-size requests at any point of a history, including before explicit initialisation, from any thread",
  "The test makes one zero-size request after start-up; early requests and mixes with resize, sized free and other blocks are not covered.",
  [CORE], [("inaccessible zero page", "src/iso_alloc.c:_iso_alloc, _iso_alloc_initialize, _iso_free, _iso_free_size, _iso_chunk_size")],
  None, ["returned address", "page protection", "reported size"])

p("C16", "Environment failures stop cleanly or are harmless",
  "If the operating system refuses memory, protection changes or entropy at any point, the affected call either aborts the process with the allocator's own diagnostic or returns NULL; the process never continues with a wild, undersized, unprotected or predictable state and never faults on its own bookkeeping. Refusal of purely optional requests changes nothing a caller can see.",
  ["fault_sequences", "histories", "schedules"],
  "a failure injected at every system call of every kind, singly and in bursts, during start-up and during any later operation",
  "No existing test makes a system call fail.",
  [UTIL, CORE, "src/iso_alloc_random.c"], [("mapping and protection failures abort", "src/iso_alloc_util.c:mmap_pages, mprotect_pages"), ("missing entropy aborts", "src/iso_alloc_random.c:rand_uint64")],
  None, ["outcome of the call under fault", "all invariants afterwards"])

p("C17", "Leak and usage reports are exact",
  "When no call is in progress, the leak count of a zone equals the number of its chunks that are live or still queued for release, and the whole-heap count is the sum over all zones. Reported memory use reflects all zones and all large allocations then held; it grows and shrinks with them and never goes negative or wraps. A report requested while other threads allocate and free completes and is never below what is certainly held throughout the call.",
  ["histories", "schedules", "configurations"],
  "all histories including permanent frees, zone destruction, retirement and large allocations; reports taken at any quiescent point",
  "Tests check the leak count after one or two fixed patterns.",
  [PROF, CORE], [("bitmap walk", "src/iso_alloc_profiler.c:_iso_alloc_zone_leak_detector"), ("usage sums", "src/iso_alloc_profiler.c:__iso_alloc_mem_usage, _iso_alloc_big_zone_mem_usage")],
  None, ["values returned by the reporting calls"])

p("C18", "Large allocations are reused tightly, bounded, and given back",
  "A large request is served either by a fresh mapping or by a cached one that exceeds the request by at most 16 KB, and never by one still live. At most 64 freed large blocks are cached, a block is served at most 16 times before its pages go back to the operating system, and when a block is retired both its pages and its bookkeeping page are unmapped.",
  ["histories", "schedules", "inputs"],
  "all sequences of large allocations, frees, resizes and size queries by any number of threads",
  "Tests allocate and free a few large sizes; list surgery errors need particular list positions, and leaked pages are invisible to them.",
  [CORE], [("reuse rule and list surgery", "src/iso_alloc.c:_iso_big_alloc"), ("cache limit and retirement", "src/iso_alloc.c:iso_free_big_zone"), ("lookup", "src/iso_alloc.c:iso_find_big_zone")],
  None, ["reported size versus request", "simulated mapping table"])

p("C19", "Footprint stays bounded when the live set is bounded",
  "If a program's live set and the set of sizes it uses stay bounded, the memory mapped by the allocator stays bounded, by an amount per size in use (and, with CPU pinning, per core), no matter how many allocations and frees it performs; freed small chunks, freed large blocks and retired zones are all reused or returned. The same holds for threads that come and go.",
  ["histories", "schedules"],
  "all long histories with a bounded live set over a bounded set of sizes and threads",
  "No test measures mappings over a long run.",
  [CORE], [("free slot scan finds every free chunk", "src/iso_alloc.c:is_zone_usable, iso_scan_zone_free_slot_slow"), ("zone reuse", "src/iso_alloc.c:find_suitable_zone"), ("retirement", "src/iso_alloc.c:_is_zone_retired"), ("large cache", "src/iso_alloc.c:iso_free_big_zone")],
  None, ["mapped bytes in the simulated kernel over time"])

p("C20", "Memory tags identify a chunk's current lifetime",
  "With memory tagging configured, a tagged pointer obtained from a zone verifies, untags to exactly the chunk's address, and can be freed as is, for every zone chunk size. After the chunk is freed its tag is drawn afresh, so that a stale tagged pointer is rejected or resolves to a wrong address unless the new tag happens to be equal (a draw that repeats the old tag happens no more often than chance), and tags of other live chunks do not change. Asking for the tag of an address that is not the start of a chunk of the given zone aborts.",
  ["histories", "inputs", "schedules"],
  "all private zone sizes, all alloc/tag/untag/verify/free orders, refreshes after heavy use",
  "Tests use one power-of-two zone and expect only crashes.",
  [TAGS, CORE], [("tag store and lookup", "src/iso_alloc_mem_tags.c:_iso_alloc_get_mem_tag"), ("verification", "src/iso_alloc_mem_tags.c:_iso_alloc_verify_tag"), ("refresh", "src/iso_alloc_mem_tags.c:_refresh_zone_mem_tags")],
  None, ["tag values, untagged address, abort on stale tag"])

p("C21", "Sampled allocations behave like ordinary ones and catch overflows",
  "With allocation sampling configured, a sampled block is private to its caller, page-isolated with inaccessible neighbours, reports the requested size (rounded up to the allocation granule), and can be freed, sized-freed and resized through every ordinary call. Writes into the unused part of its page are detected when it is freed, its pages are unmapped on free, and the number of samples outstanding never exceeds the configured limit, without ever aborting a correct program. Allocations are in fact sampled at about the configured rate while the limit is not reached.",
  ["histories", "schedules", "configurations"],
  "all histories with sampling at any rate up to certainty, several threads competing for the last sample slot",
  "At the default odds of one in ten thousand the tests see almost no samples and never fill the table.",
  [SAN, CORE], [("sampling decision", "src/iso_alloc.c:_iso_alloc"), ("sample table", "src/iso_alloc_sanity.c:_iso_alloc_sample, _get_sane_alloc, _iso_alloc_free_sane_sample")],
  None, ["outcome of all calls on sampled blocks", "simulated page table"], "guarded build hook makes the odds and table size run-time knobs")

p("C22", "Freed memory is scrubbed when configured to be",
  "With sanitising configured, no byte of user data written before a free remains readable anywhere in the block once the free has taken effect, for small and large blocks alike. With protection of freed large blocks configured, a freed and cached large block is inaccessible until it is handed out again, and fully accessible then.",
  ["histories", "schedules", "inputs"],
  "all block sizes, all release calls, all reuse histories",
  "Tests overwrite and free a block but do not scan the freed memory.",
  [CORE], [("poisoning", "src/iso_alloc.c:iso_free_chunk_from_zone, iso_free_big_zone"), ("page protection", "src/iso_alloc.c:iso_free_big_zone, _iso_big_alloc")],
  None, ["bytes of freed blocks", "page protection of cached blocks"])

p("C23", "Initialisation is idempotent and destruction verifies and releases",
  "Initialising more than once, or implicitly by a first allocation from any thread before the constructor or explicit initialisation, yields exactly one working heap with all features in force. Destroying the heap verifies it, reporting corruption by abort, and releases the large allocations; with cleanup configured it releases every mapping the allocator still holds (other than blocks the program permanently freed or samples it still owns) and the heap can be initialised again by the same thread.",
  ["histories", "schedules", "configurations"],
  "all orders of implicit and explicit initialisation, use, and destruction, including racing first allocations",
  "Each test process is initialised once by its constructor and destroyed at exit.",
  [CORE], [("lazy and explicit initialisation", "src/iso_alloc.c:_iso_alloc_initialize, iso_alloc_initialize_global_root, _iso_alloc"), ("destruction", "src/iso_alloc.c:_iso_alloc_destroy")],
  None, ["number of heaps created", "mappings left after destroy"])

p("C24", "Layout and check values are unpredictable and independent",
  "Everything an attacker must guess (mapping placement, per-zone check values, handle masking, tags, order in which fresh chunks are handed out) depends on operating system entropy: two processes with identical histories but different entropy differ in each, fresh chunks are not handed out in the order of their addresses, and zones within one process do not share check values. Entropy is drawn anew when a zone is created and when its slot cache is refilled.",
  ["histories", "inputs"],
  "all pairs of entropy streams, all histories",
  "A test process sees one entropy stream and cannot compare.",
  [CORE, "src/iso_alloc_random.c", UTIL], [("entropy source", "src/iso_alloc_random.c:rand_uint64"), ("slot shuffling", "src/iso_alloc.c:fill_free_bit_slots"), ("per-zone secrets", "src/iso_alloc.c:_iso_new_zone"), ("placement hint", "src/iso_alloc_util.c:mmap_pages")],
  None, ["addresses, handles and check bytes of paired runs"])

p("C25", "CPU-pinned builds share no zone between cores and stay correct",
  "With CPU pinning configured, a general allocation is served only from zones created on the core it runs on, so live chunks handed out on different cores never share a zone, while frees, resizes and queries of a block work from any core. A private zone may refuse (NULL) a core other than its creator's. Migration of a thread between cores at any moment never breaks an allocation.",
  ["schedules", "histories"],
  "all migration points, all interleavings, cross-core frees",
  "The tests run wherever the OS puts them and never control migration.",
  [CORE, UTIL], [("zone core check", "src/iso_alloc.c:is_zone_usable"), ("core query", "src/iso_alloc_util.c:_iso_getcpu")],
  None, ["zone region of each allocation versus the core at the time"])

p("C26", "Checked memory routines copy exactly and catch overflows",
  "With checked memory routines configured, copy, overlapping move and fill produce exactly the bytes the standard requires for all lengths, overlaps and alignments, inside and outside the heap. A copy, move or fill longer than the chunk at its destination (or source) start is stopped, by abort or by a fault, whenever that chunk's zone is the one most recently mapped in its address window; a fitting one is never stopped.",
  ["inputs", "histories"],
  "all lengths, overlaps and positions, all heap states",
  "Tests perform one overflowing and one ordinary call each.",
  [SAN, "src/libc_hook.c"], [("bounds check", "src/iso_alloc_sanity.c:_iso_alloc_memcpy, _iso_alloc_memmove, _iso_alloc_memset")],
  None, ["resulting bytes", "abort on overflow"])

p("C27", "Allocation calls from every interface family share one heap contract",
  "The C library entry points, the aligned entry points and the C++ operators behave as their standards require on top of this heap: blocks are interchangeable with the native calls, usable-size queries are truthful, failures are reported in the prescribed way (NULL, error code, or exception), invalid alignments are rejected, and deletes of NULL are ignored. A requested alignment is met by the returned address.",
  ["inputs", "histories", "schedules"],
  "all sizes, alignments and pairings of allocating and releasing entry points",
  "Tests call a few of these with small alignments that hold by accident.",
  ["src/malloc_hook.c", "src/iso_alloc.cpp"], [("hooks", "src/malloc_hook.c:posix_memalign, malloc_usable_size, reallocarray"), ("operators", "src/iso_alloc.cpp:operator new")],
  None, ["returned addresses, error codes, exceptions"])

p("C28", "Strong size isolation never mixes sizes",
  "With strong size isolation configured, every small allocation is served from a zone whose chunk size is exactly the request rounded up to the allocation granule, so that chunks of different rounded sizes never share a zone and a freed chunk is only ever reused for the same rounded size. A private zone serves only its own chunk size, and refuses a string whose rounded size differs.",
  ["histories", "inputs", "schedules"],
  "all request sizes, all heap states including exhausted zones and recently used zone caches",
  "The variant's tests check no sizes.",
  [CORE], [("exact-size zone choice", "src/iso_alloc.c:is_zone_usable, find_suitable_zone")],
  None, ["reported chunk size versus request", "address reuse across sizes"])

p("C29", "Heap profiling is safe and its counts are right",
  "With heap profiling configured, recording never disturbs allocation behaviour, and the retrieved traces describe real calls: each retrieved entry is filled in, entries are distinct call paths, call counts add up to the number of sampled calls since the last reset, and size bounds enclose the recorded sizes. The profile written at exit holds the same totals, traces, call counts and size bounds, counts a zone as nearly full in the samples taken while it was, and names a caller only when its name is known. Retrieval never writes outside what it reports, from any thread at any time. Each trace holds the return addresses of the frames that led to the call, and allocations and frees are recorded at about the configured rate.",
  ["histories", "schedules"],
  "all histories, resets at any moment, several threads, any number of distinct call paths up to the table limits",
  "The profiler test prints the traces without comparing them with anything.",
  [PROF], [("back trace table", "src/iso_alloc_profiler.c:_iso_alloc_profile, _iso_free_profile"), ("retrieval and reset", "src/iso_alloc_profiler.c:_iso_get_alloc_traces, _iso_alloc_reset_traces")],
  None, ["retrieved arrays and counts"], "guarded build hook makes the sampling odds a run-time knob")

p("C30", "Dangling references are poisoned when configured",
  "With the use-after-free page configured, when the search triggers on a free, a pointer-sized heap word equal to the freed chunk's address is replaced by the address of an inaccessible page, no other word of any live allocation changes, and with no such word nothing changes. With the signal handler configured, an access through such a reference is reported as a use after free, and an unrelated fault is not. The search never faults or reads outside accessible heap memory.",
  ["histories", "schedules", "inputs"],
  "all heap contents and positions of dangling words, all freed chunks, with the trigger at any odds up to certainty",
  "At the default odds of one in a million the tests never trigger the search.",
  ["src/iso_alloc_search.c", CORE], [("pointer search", "src/iso_alloc_search.c:_iso_alloc_ptr_search"), ("trigger", "src/iso_alloc.c:_iso_free_internal_unlocked")],
  None, ["words of live allocations before and after a free"], "guarded build hook makes the odds a run-time knob")

p("C31", "Reads of never-written memory are detected when configured",
  "With uninitialised-read detection configured, reading a sampled allocation before anything was written to it stops the program at that read. A program that writes first, or never accesses the block, is never stopped or delayed for ever: after the first write all of the block is readable, and untouched blocks can be freed. This holds however the heap came to be initialised and whatever other threads do meanwhile.",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "all sampled allocations of any size and placement in their page, all orders of first access and release, any interleaving of several faulting threads with the page fault service, refused registrations",
  "No test is built with this option, at the shipped odds a test would sample almost nothing, and the order in which threads and the fault service run is left to the kernel.",
  [SAN, CORE], [("page fault service", "src/iso_alloc_sanity.c:_page_fault_thread_handler"), ("registration of sampled pages", "src/iso_alloc_sanity.c:_iso_alloc_sample"), ("set-up", "src/iso_alloc_sanity.c:_iso_alloc_setup_userfaultfd")],
  None, ["abort at the first read", "completion of every other access", "contents"], "guarded build hook makes the sampling odds a run-time knob")

p("C32", "Hardware memory tagging protects chunk lifetimes on ARM",
  "On processors with hardware memory tagging, each chunk carries a tag for its lifetime and accesses through stale pointers trap.",
  ["histories", "configurations"],
  "all alloc/free histories on ARM hardware with tagging",
  "Needs the hardware; not built on this machine.",
  ["src/iso_alloc_mte.c", CORE], [("hardware tags", "src/iso_alloc_mte.c:iso_mte_set_tag_range")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P))
