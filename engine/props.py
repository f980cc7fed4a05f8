"""Property texts.  mkmanifest.py writes properties.jsonl and MANIFEST.json from this table."""
A = "src/iso_alloc.c"
I = "src/iso_alloc_interfaces.c"
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, state=None, note="", tech=None):
    PROPS.append({"id": id, "title": title, "statement": " ".join(statement.split()), "over": over, "quant": " ".join(quant.split()),
                  "why": " ".join(why.split()), "files": files, "mech": mech, "state": state, "note": " ".join(note.split()), "tech": tech})


RI = ("abstract interpretation: gated value-numbering dataflow over the LLVM IR of every build variant, obligations decided by random "
      "interpretation of the resulting terms (Gulwani-Necula); no execution, no solver")
ESP = "interprocedural path-sensitive typestate / lockset dataflow (ESP property simulation) over the LLVM IR of every build variant"
NOTE_RI = ("Static value analysis over all paths of the virtually inlined code; loops are abstracted by one generic iteration with adversarial "
           "loop variables; obligations over values are discharged by evaluating the terms on randomly drawn abstract heaps, so a violation "
           "that only exists for a vanishing fraction of heaps could be missed.")
NOTE_ESP = ("Covers every path of every entry point under the compiled configurations (loops abstracted to a fixpoint of automaton states); "
            "paths are pruned only by facts the value numbering can refute.")

P("P01", "every call releases every internal lock it took, on every path",
  """Whatever path a call into the allocator takes (success, failure, early return, unusual size, sampled allocation), when it returns it holds
  exactly the internal locks it held on entry, never releases a lock it does not hold and never takes one it already holds. The only exceptions
  are the documented pair that protects and unprotects the allocator's root.""",
  ["inputs", "schedules", "configurations"], "for every entry point, every path through it, in every build configuration",
  "A missed release on a rare failure path (mmap failure, oversize request, sampling) hangs the next call; tests run few of these paths and mostly single threaded.",
  [A, I, "src/iso_alloc_sanity.c", "src/iso_alloc_profiler.c", "src/iso_alloc.cpp"],
  [{"name": "LOCK_ROOT/UNLOCK_ROOT and the big zone and sanity lock macros", "where": "include/iso_alloc_internal.h"}], note=NOTE_ESP, tech=ESP)

P("P02", "shared allocator state is only touched under the lock that guards it",
  """When thread support is enabled, every read or write of mutable allocator state that threads share (zone bookkeeping and bitmaps, quarantine,
  lookup tables, the random seed, the used and free lists of large allocations, sampled allocations, the profiler's tables) happens while the lock
  guarding that state is held. Concurrent calls from any number of threads therefore never race on it.""",
  ["schedules", "configurations"], "for every entry point, every path, every access, under every interleaving of threads",
  "Data races show up only under particular interleavings; the threaded tests sample a few schedules.",
  [A, I, "src/iso_alloc_sanity.c", "src/iso_alloc_profiler.c", "src/iso_alloc_search.c", "src/iso_alloc_mem_tags.c"],
  [{"name": "root lock, big zone used/free locks, sanity lock", "where": "include/iso_alloc_internal.h"}], note=NOTE_ESP, tech=ESP)

P("P03", "the allocator cannot deadlock on its own locks",
  """Internal locks are always acquired in one global order, no thread acquires a lock it already holds, and while any internal lock is held the
  allocator never calls something that could allocate, wait or run foreign code and so re-enter it.""",
  ["schedules", "programs", "configurations"], "for every entry point, path and pair of concurrent calls, in every build configuration",
  "A lock-order inversion or a re-entrant call needs two threads at the right points, or a libc that allocates inside the called function.",
  [A, "src/iso_alloc_sanity.c", "src/iso_alloc_profiler.c", "src/iso_alloc_printf.c"],
  [{"name": "nesting root -> big zone used/free, root -> sanity", "where": A}], note=NOTE_ESP, tech=ESP)

P("P04", "freeing a pointer the allocator did not hand out aborts",
  """Passing a free function a non-null pointer that lies outside every zone and large allocation, inside a large allocation but not at its start,
  or inside a zone but not at a chunk boundary never returns normally having changed allocator state: the process aborts, at the call or, for
  delayed frees, when the pending pointers are processed. The same holds for a pointer that belongs to a different zone than the private zone it is
  freed to.""",
  ["inputs", "histories", "configurations"], "for every pointer value, heap layout and free entry point",
  "Tests free a handful of bad pointers; the pointer and heap layout spaces are unbounded and off-by-one ends are never hit.",
  [A, I, "src/iso_alloc.cpp"],
  [{"name": "alignment, chunk multiple and bitmap range checks on free", "where": A}, {"name": "lookup of the owning zone or big zone", "where": A}],
  note=NOTE_RI, tech=RI)

P("P05", "freeing a chunk that is not currently allocated aborts",
  """Freeing a chunk that has already been freed, was never allocated, was permanently freed or is one of the allocator's own canary chunks never
  marks it free: the process aborts, at the call or when delayed frees are processed. The same holds for a large allocation already freed.""",
  ["inputs", "histories", "configurations"], "for every heap state, chunk and free entry point",
  "Tests double free one chunk in one state; the property quantifies over all bitmap states and histories.",
  [A, I, "src/iso_alloc.cpp"],
  [{"name": "two bit state check in the zone bitmap on free", "where": A}, {"name": "free flag of a big zone record", "where": A}],
  note=NOTE_RI, tech=RI)

P("P06", "an allocation returns a free chunk, marks it in use and touches no other",
  """Whenever an allocation succeeds from a zone, the returned pointer is the exact start of a chunk of that zone that was not in use and not sealed
  (a canary chunk or permanently freed), that chunk is marked in use, and no other chunk changes state. A recycled large allocation comes from the
  list of freed ones. A chunk is therefore never handed to two owners.""",
  ["inputs", "histories", "configurations"], "for every heap state (including stale free-slot caches), request and allocation entry point",
  "Handing out a live chunk needs a stale cache entry or a particular bitmap pattern; tests rarely check that live chunks do not overlap.",
  [A, I, "src/iso_alloc_search.c", "src/iso_alloc.cpp"],
  [{"name": "free bit slot cache and bitmap scans", "where": A}, {"name": "bitmap state check and update on allocation", "where": A}],
  note=NOTE_RI, tech=RI)

P("P07", "an allocation is at least as big as asked and comes from the right zone",
  """The chunk or mapping an allocation returns is at least as big as the request. A request that names no zone is never served from a private
  zone, and a request from a private zone is served only from that zone.""",
  ["inputs", "histories", "configurations"], "for every request size, heap state, cache content and allocation entry point",
  "A wrong size lookup or a stale per-size cache needs specific combinations of zones and sizes that the fixed test sizes do not meet.",
  [A, I, "src/iso_alloc.cpp"],
  [{"name": "zone search, zone lookup table, thread zone cache, size-fit checks", "where": A}], note=NOTE_RI, tech=RI)

P("P08", "free chunks carry canaries that are checked on free and reallocation",
  """When a chunk is freed, a canary derived from the chunk's address and a per-zone secret is in its first and last eight bytes by the time the
  free completes. Freeing a chunk whose neighbour (the chunk directly before or after it) is free or sealed and has a damaged canary at either end
  aborts, and a freed chunk whose canary is damaged at either end is never handed out again: the process aborts.""",
  ["inputs", "histories", "configurations"], "for every heap state, chunk position, corruption and entry point",
  "Needs a corrupted byte in a particular free chunk at the moment a neighbour is freed or the chunk reused; tests corrupt one or two chunks.",
  [A, I], [{"name": "canary written and checked on free, checked on reuse", "where": A}], note=NOTE_RI, tech=RI)

P("P09", "zone verification checks every free and sealed chunk",
  """Verifying one zone, or all zones, inspects the canaries at both ends of every chunk that is freed or sealed, in every zone in use, including
  the first and last chunk the bitmap covers, and aborts if one is damaged. It never stops scanning early.""",
  ["inputs", "histories", "configurations"], "for every number of zones, zone geometry, bitmap content and position of the damaged chunk",
  "An off-by-one in the scan skips one chunk or zone; tests do not corrupt the last chunk of the last zone.",
  ["src/iso_alloc_sanity.c", I], [{"name": "verification scan over zones, bitmap words and bits", "where": "src/iso_alloc_sanity.c"}],
  note=NOTE_RI, tech=RI + "; generic-iteration loop coverage")

P("P10", "a large allocation whose record is damaged is never used",
  """Every record of a large allocation carries a canary at both ends, made from its address, its mapping and a process secret. Freeing, resizing or
  asking for the size of a large allocation whose record is damaged at either end, recycling such a record, or verifying all zones while one is in use
  or on the free list aborts the process.""",
  ["inputs", "histories", "configurations"], "for every position on the lists, damaged canary, damage pattern and entry point",
  "Needs a corrupted metadata record at a particular list position; tests never corrupt the metadata of large allocations.",
  [A, "src/iso_alloc_sanity.c", I], [{"name": "big zone canary creation and check in find, recycle and verify", "where": A}], note=NOTE_RI,
  tech=RI + "; loop-summary unrolling")

P("P11", "the lists of large allocations stay consistent",
  """Freeing a large allocation takes exactly its record off the list of used ones, wherever on the list it is, and leaves it on the free list or on
  none. An allocation adds exactly one recycled or new record to the used list; a question about a pointer or zone changes no list. The counters equal
  the lengths of the lists.""",
  ["inputs", "histories", "configurations"], "for every list length, position and entry point",
  "Unlinking errors only show for particular positions (head, middle, tail) followed by further frees; tests free in allocation order.",
  [A, I, "src/iso_alloc_sanity.c"], [{"name": "big zone used and free list manipulation", "where": A}], note=NOTE_RI,
  tech=RI + "; loop-summary unrolling")

P("P12", "impossible requests are refused, never served by something smaller",
  """A request for more than four gigabytes, or one whose size overflows when it is rounded up or multiplied, is refused by every allocation entry
  point: it returns NULL or aborts, and no chunk or mapping is handed out or changes state.""",
  ["inputs", "configurations"], "for every size and element count beyond the limits, including those that wrap around",
  "Wrap-around needs a handful of sizes near the end of the 64 bit range; tests use sizes an application would ask for.",
  [A, I, "src/iso_alloc.cpp", "src/malloc_hook.c"], [{"name": "size rounding, overflow and limit checks", "where": A}], note=NOTE_RI, tech=RI)

P("P13", "zeroed allocations are zero",
  """Memory returned by calloc, or its public equivalents, is zero for the whole number of bytes asked for, whether it comes from a new chunk, a
  reused one or a recycled large allocation.""",
  ["inputs", "histories", "configurations"], "for every element count, size, heap state and build configuration",
  "Stale bytes only show in reused memory of the right size; tests mostly look at fresh memory, which the kernel already zeroed.",
  [A, I, "src/malloc_hook.c", "src/iso_alloc_sanity.c"], [{"name": "fill after allocation", "where": A}], note=NOTE_RI, tech=RI + "; effect traces")

P("P14", "realloc keeps the contents and releases the old block exactly on success",
  """When realloc or reallocarray returns a new block it is at least as big as asked, its first bytes up to the smaller of the old usable size and the
  new size equal the old contents, and the old block is released after it was copied. When it returns NULL for a non-zero size the old block is
  neither released nor modified; size zero releases it.""",
  ["inputs", "histories", "configurations"], "for every old block (chunk or large allocation), new size and heap state",
  "Losing a tail byte or leaking the old block needs particular size pairs; failure is never provoked by the tests.",
  [I, A, "src/malloc_hook.c", "src/iso_alloc_sanity.c"], [{"name": "allocate, copy, free order in realloc", "where": I}],
  note=NOTE_RI, tech=RI + "; effect traces")

P("P15", "string duplication copies the whole string, terminates it and stays in bounds",
  """strdup and strndup, with or without a zone, return a block holding exactly the bytes of the string up to its end or the limit, followed by a NUL
  byte. They read nothing past the terminator or the limit and write nothing outside the block; a string that does not fit the zone gives NULL.""",
  ["inputs", "configurations"], "for every string length, limit, chunk size and heap state",
  "The missing terminator or over-read shows only for lengths that fill a chunk exactly; tests use one short string.",
  [I, "src/iso_alloc_sanity.c"], [{"name": "length computation, allocation and copy", "where": I}], note=NOTE_RI, tech=RI + "; effect traces")

P("P16", "a new zone is laid out, guarded, secret and registered as its owner needs",
  """A zone created or re-created by the allocator has its own slot, chunks that fit the request, user pages inside one fresh mapping between two
  inaccessible pages, a bitmap no other zone shares, and new random secrets; its sealed chunks carry canaries. The pointer and size lookup tables lead
  to it (size only for shared zones). Retiring a zone unmaps its pages, bitmap and guard pages and nothing else.""",
  ["inputs", "histories", "configurations"], "for every request size, number of zones, shared bitmap page state and entry point that creates or replaces a zone",
  "A shared bitmap piece, a missing guard page or a wrong table entry only hurts much later and under particular histories.",
  [A, I], [{"name": "zone creation, retirement and replacement", "where": A}], note=NOTE_RI, tech=RI + "; effect traces")

P("P17", "a free releases exactly the chunk it was given, now or by the next flush",
  """Freeing a live chunk either marks exactly that chunk freed (sealed when the free is permanent) and lowers its zone's count of live chunks by one,
  or puts it once at the end of the bounded queue of delayed frees. Flushing the queue, which also happens when it is full and before a zone or the
  heap is destroyed, frees every queued chunk and leaves the queue empty.""",
  ["inputs", "histories", "configurations"], "for every heap state, chunk, queue length and free entry point",
  "A free that is dropped, or an entry of the queue that is skipped, shows only as memory that never becomes available again.",
  [A, I], [{"name": "delayed free queue, its flush and the bitmap update on free", "where": A}], note=NOTE_RI, tech=RI + "; loop coverage")

P("P18", "large allocations are mapped apart from their records and given back whole",
  """A new large allocation starts at a fresh readable and writable mapping that holds the request, its record lies in another mapping, and a reused one
  is accessible over its whole length. Freeing it either keeps it for reuse with its contents dropped, seals the block and its record's page (permanent
  free), or unmaps the block, its guard pages and its record's page. No free of a large allocation unmaps or protects anything else.""",
  ["inputs", "histories", "configurations"], "for every size, list of used and free large allocations, age and kind of free, and build with or without guards",
  "Pages left behind or a neighbour's page sealed are invisible until the address space runs out or another object faults.",
  [A], [{"name": "creation, reuse, retirement and permanent free of large allocations", "where": A}], note=NOTE_RI, tech=RI + "; effect traces")

P("P19", "memory tags belong to one chunk, are checked, and change when it is freed",
  """With memory tagging, the tag put into a pointer is the one stored for exactly that chunk and removing it gives the address back; a wrong tag, an
  address inside a chunk, or one outside the zone makes the checking call abort instead of returning. Freeing a chunk of a tagged zone replaces its tag,
  and every chunk of a new tagged zone gets a random one.""",
  ["inputs", "histories", "adversary inputs"], "for every tagged zone, chunk, tag and pointer passed to a tagging or freeing entry point",
  "A tag read from the wrong place is still a tag, so ordinary use does not notice.",
  [A, "src/iso_alloc_mem_tags.c"], [{"name": "tag lookup, checks, refresh and creation", "where": "src/iso_alloc_mem_tags.c"}], note=NOTE_RI, tech=RI + "; effect traces")

P("P20", "sizes reported for allocations are exact and sized frees are checked",
  """Asking for the size of an allocation returns exactly the size of its chunk or large allocation, 0 for NULL or a zero sized allocation, and aborts
  for a pointer that is neither in a zone nor the start of a large allocation. Freeing with a size (also C++ sized delete) aborts when the size is larger
  than the chunk or large allocation, or is not 0 for a zero sized allocation, and accepts every size that fits.""",
  ["inputs", "histories", "configurations"], "for every heap state, pointer and size passed to a size query or sized free",
  "Sizes just past a chunk's end and the limit between small and large are rarely used; tests free with the right size.",
  [A, I, "src/iso_alloc.cpp", "src/malloc_hook.c"], [{"name": "size query and sized free", "where": A}], note=NOTE_RI, tech=RI + "; loop-summary unrolling")

P("P21", "queries change nothing and stored zone pointers stay masked",
  """Asking for sizes, usage, leaks, chunk counts or tags, verifying zones and naming a zone change nothing: no chunk state, delayed free, lookup table,
  zone or large allocation record and no user memory differs afterwards. In builds that mask pointers no operation leaves the real user or
  bitmap pointer in a zone when it releases the root lock or returns.""",
  ["inputs", "histories", "configurations"], "for every heap state and every query, and on every path of every operation",
  "An early return between unmasking and masking only matters to the next user of that zone, and only on that path.",
  [A, I, "src/iso_alloc_profiler.c", "src/iso_alloc_mem_tags.c"], [{"name": "queries and pointer masks", "where": A}], note=NOTE_RI, tech="typestate; " + RI)

P("P22", "valid requests on an undamaged heap are served",
  """On an undamaged heap every valid call has an outcome other than aborting: a request of any supported size that finds or can be given memory returns a
  block, also when the system has no huge pages; frees and size queries of every live chunk, large allocation and NULL return, wherever it lies and
  whatever the state of its neighbours and of the queue of delayed frees. So do the queries, verifications and tag operations on every zone.""",
  ["inputs", "histories", "configurations"], "for every class of heap state, size, chunk position and public entry point",
  "A check that is one too strict aborts only for the last chunk of a zone, a full queue or one size; tests sample few of them.",
  [A, I, "src/iso_alloc_util.c"], [{"name": "the abort conditions on the paths of valid calls", "where": A}], note=NOTE_RI, tech=RI)

P("P23", "freed chunks are wiped where the build promises it, and only they are",
  """A permanent free always, and in builds that clear chunks every free at once or when delayed frees are carried out, overwrites every byte of the
  freed chunk except its canary words with the clearing byte before anything else can use it, and writes nothing next to the chunk. In builds that make
  frees by reallocation permanent, moving a chunk frees the old one permanently.""",
  ["inputs", "histories", "configurations"], "for every heap state, chunk and free entry point, in every build that clears chunks",
  "Stale secrets in freed memory are invisible to tests; a clear that misses the tail of a chunk or one kind of zone passes them.",
  [A, I], [{"name": "the clearing of chunks on free", "where": A}], note=NOTE_RI, tech=RI + "; effect traces")

P("P24", "NULL pointers, strings and zone handles are harmless",
  """Every public function that takes a pointer to allocated memory, a string to copy or a zone handle accepts NULL for it: it returns, with 0 or NULL
  where it returns something, without accessing memory through it and without changing any chunk, delayed free, zone or large allocation.""",
  ["inputs", "histories", "configurations"], "for every such parameter of every public function and every heap state",
  "A missing check in one function shows only when that function is given NULL, and with masked handles it then works on a wild zone.",
  [I, A, "src/iso_alloc_mem_tags.c", "src/iso_alloc_profiler.c"], [{"name": "NULL checks at and below the public entry points", "where": I}], note=NOTE_RI, tech=RI)

NA = []


def N(id, title, statement, over, quant, why, files, mech, reason):
    P(id, title, statement, over, quant, why, files, mech)
    PROPS[-1]["na"] = " ".join(reason.split())
