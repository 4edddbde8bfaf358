#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Concurrent map operations are linearizable",
  "Every concurrent history of point operations on a concurrent map or a sharded map (load, has, store, load-or-store, load-and-delete, delete, compute-if-absent, compute-if-present, clear) is explainable, key by key, by some sequential order of those operations that respects real time. In particular no completed store is lost, no deleted or cleared value reappears, and every returned value/flag pair is the one a plain dictionary would give at that point. Operations stay safe (no crash, no data race, no deadlock) while another goroutine clears the map.",
  ["schedules", "histories"], "for every set of goroutines, every interleaving of their point operations, and every prior operation history of the map (fresh, promoted, amended, with deleted entries)",
  "The tests compare the map with reference maps only sequentially, and the one concurrent test stores disjoint keys from two goroutines; no test runs conflicting operations on one key or Clear concurrently with anything.",
  ["xsync/map.go", "xsync/shared_map.go"],
  [("lock-free read part, mutex-protected dirty part, CAS on entries", "xsync/map.go Load/Store/LoadOrStore/LoadAndDelete/Clear"), ("key-to-shard routing", "xsync/shared_map.go GetShard")],
  [("read", "entries reachable without the lock", "xsync/map.go Map.read"), ("dirty", "complete map under the lock when amended", "xsync/map.go Map.dirty"), ("entry.p", "value, deleted or expunged", "xsync/map.go entry.p")],
  ["return values of the public map operations"])

p("C02", "Map iteration is complete, duplicate-free and re-entrant",
  "One iteration over a concurrent or sharded map calls the callback at most once per key, and exactly once for every key that is present throughout the iteration; each reported value is one that key held at some moment during the iteration. Returning false stops the iteration immediately, with no further callback on any shard. The callback may itself call the map's operations, including another iteration.",
  ["schedules", "histories", "inputs"], "for every map content and shard count, every set of concurrent writers and iterators, and every stopping point",
  "The concurrent range test exercises the standard library's map, not this one; sequential tests only count elements, and early stop and re-entrancy are never tried.",
  ["xsync/map.go", "xsync/shared_map.go"],
  [("promotion of the dirty part before iterating", "xsync/map.go Range"), ("shard loop and early stop", "xsync/shared_map.go Range")],
  observe=["arguments of the iteration callback, timestamps of the writers' operations"])

p("C03", "Maps behave as a plain dictionary for any sequential history",
  "For any sequence of operations by one goroutine, the concurrent map and the sharded map give exactly the results and final contents of a plain dictionary, whatever the keys (empty, binary, long, colliding, non-string where allowed) and values (including nil). The shard count is invisible in results: any positive requested count works, however large, a key always lives in the one shard reported for it, a bulk store is the same as storing each pair and leaves the caller's collection alone, and non-positive counts are refused at construction.",
  ["inputs", "histories", "configurations"], "for every operation sequence, key and value type, and shard count",
  "Two quick-check tests use at most three-letter keys, ignore compute results, never clear, and never touch the sharded map; sharded-map tests use a handful of keys with the default shard count.",
  ["xsync/map.go", "xsync/shared_map.go"],
  [("dirty/read promotion and expunging", "xsync/map.go missLocked, dirtyLocked"), ("power-of-two rounding and FNV routing", "xsync/shared_map.go getShardBlockSize, fnv32, GetShard")],
  observe=["return values and iteration contents"])

p("C04", "Map compute operations are atomic and survive panicking callbacks",
  "Each successful compute-if-present replaces exactly the value its callback was given, so concurrent updates of one key are never lost; of several goroutines computing one absent key exactly one installs its value and all get that value. A compute-if-present on an absent key stores nothing and calls nothing, and a compute-if-absent on a present key calls nothing and returns it. A panic in a callback reaches the caller, leaves the key as it was, and leaves the map fully usable by every goroutine.",
  ["schedules", "histories", "fault_sequences"], "for every interleaving of compute, store and delete operations and every pattern of panicking callbacks",
  "Compute operations are tested only sequentially, on fresh maps, with callbacks that ignore their input and never fail.",
  ["xsync/map.go", "xsync/shared_map.go"],
  [("CAS loop from the observed value", "xsync/map.go tryComputeIfPresent, tryComputeIfAbsent"), ("lock held over slow-path callbacks", "xsync/map.go ComputeIfAbsent, ComputeIfPresent")],
  observe=["callback arguments and results, return values"])

p("C05", "The spin lock excludes, admits and publishes",
  "At most one goroutine holds the spin lock at any time, and what one holder wrote is visible, race-free, to the next. A try-lock succeeds exactly when the lock is free at some moment of the call, never blocks, and fails without side effects otherwise. Whenever the lock keeps being released, every waiting goroutine eventually acquires it, on any number of processors.",
  ["schedules"], "for every number of contenders and processors and every interleaving of lock, try-lock and unlock",
  "The tests lock from at most two goroutines, which never contend at a critical section whose overlap would be noticed.",
  ["xsync/spinlock.go"],
  [("compare-and-swap acquire, store release, backoff loop", "xsync/spinlock.go Lock/TryLock/Unlock")],
  observe=["critical-section occupancy, try-lock results"])

p("C06", "A managed resource is created once and shared until removed",
  "Concurrent and successive requests for one key run the creation function at most once at a time and all receive the same resource until it is removed; a request that starts after a removal returned never receives the removed resource. A failed or panicking creation is reported to the requests that waited for it, is not remembered, and the next request tries again. Requests for different keys never wait for each other, and no created resource is silently replaced or dropped.",
  ["schedules", "histories", "fault_sequences"], "for every interleaving of get, remove and failing or panicking creations over any keys",
  "The tests call Get sequentially from one goroutine; concurrent creation, removal during creation and panicking creation never happen.",
  ["xsync/resourcemanager.go"],
  [("single-flight per key around lookup and create", "xsync/resourcemanager.go Get"), ("lookup and delete under the lock", "xsync/resourcemanager.go Remove")],
  [("resources", "live resource per key", "xsync/resourcemanager.go")],
  ["resource identities returned by Get, calls of the creation function, Remove results"])

p("C07", "Closing a resource manager closes every owned resource exactly once",
  "After close returns and all pending requests have returned, every resource ever created through the manager has been closed exactly once, except those removed earlier, which it never closes. Close reports the error of every resource whose closing failed, each once, and nothing else; closing again closes nothing more. A request pending during close, issued by a resource that is being closed, or issued after close does not crash or hang: it gets a resource the manager has closed or will close, or an error.",
  ["schedules", "histories", "fault_sequences"], "for every set of resources, every pattern of closing errors, and every interleaving of get, remove and close",
  "The tests close a manager only sequentially and without looking at which resources were closed; requests in flight during close are never exercised.",
  ["xsync/resourcemanager.go", "xerror/err.go"],
  [("close loop under the lock with error batch", "xsync/resourcemanager.go Close")],
  observe=["Close calls on the resources, returned errors"])

p("C08", "Write-once cells accept exactly one write",
  "Of all writes ever made to a write-once value or channel, of whatever types and from whatever goroutines, the first to take effect reports success and every other reports failure, without blocking or panicking. The value reads as unset until the winning write and as the winner's value from the moment that write returned, for ever. From the moment that write returned the channel delivers the winner's value, exactly once, and is then closed, whether or not anyone was receiving.",
  ["schedules", "inputs"], "for every number of writers and readers, every mix of written types (including nil), and every interleaving",
  "The tests write a thousand ints concurrently and look once afterwards; mixed types, nil, and reads or receives racing with the write are not covered.",
  ["xonce/value.go", "xonce/chan.go"],
  [("compare-and-swap from unset", "xonce/value.go Write"), ("claim flag, buffered send, close", "xonce/chan.go Write")],
  observe=["write results, read values, received values"])

p("C09", "Cancelled barriers transfer nothing; live barriers lose nothing",
  "A barrier write reports success exactly if its value entered the channel, once, and a barrier read that reports success consumed exactly the value it returns, so values written, received and left in the channel always balance, in order. A read or write that starts after the context is cancelled reports failure and leaves the channel untouched even when the channel is ready. A read or write that is blocked when the context is cancelled returns failure instead of staying blocked.",
  ["schedules", "fault_sequences"], "for every number of readers and writers, channel capacity, and cancellation moment",
  "The tests run one writer or one reader and cancel between two calls; concurrent parties, cancellation while blocked and value accounting are not covered.",
  ["xbarrier/readbarrier.go", "xbarrier/writebarrier.go"],
  [("context check before the channel operation", "xbarrier/*.go Read/Write")],
  observe=["return values, channel contents"])

p("C10", "Context-controlled execution returns one outcome and cleans up once",
  "A controlled call runs the function at most once, not at all if the context is already done, and returns the function's error, the context's error if that ends first, or, when the function panics or exits its goroutine, panics or exits likewise in the caller. It returns as soon as the context ends even if the function never does, and an abandoned function may later return or panic without harming the process or leaving a goroutine behind. The cleanup function runs exactly once, before the call returns, on every path.",
  ["schedules", "fault_sequences", "inputs"], "for every outcome of the function (value, error, panic, goroutine exit, never), every context state and cancellation moment, with and without cleanup",
  "The tests try one outcome at a time with fixed sleeps and never count cleanup calls, leftover goroutines, or look at the panic's content.",
  ["xtask/do.go"],
  [("goroutine with buffered result and panic channels, select on the context", "xtask/do.go Do"), ("deferred cleanup", "xtask/do.go Do")],
  observe=["return value or panic of the call, invocation counts, goroutine dump"])

p("C11", "Retrying runs until first success within its budget",
  "A retried function is called until it first succeeds, at most once plus the configured number of retries (three by default, the last option winning), and never again afterwards; it is always called at least once. Success yields no error whatever failed before; otherwise the result carries the error of every attempt, in order, and a single failure is returned as is.",
  ["inputs", "fault_sequences", "configurations"], "for every sequence of attempt outcomes and every retry count",
  "The tests try four outcome sequences and look only at whether an error came back.",
  ["xtask/retry.go", "xerror/err.go"],
  [("bounded loop with error batch", "xtask/retry.go DoWithRetry")],
  observe=["number of calls, returned error"])

p("C12", "A worker limiter never exceeds its size and never loses a slot",
  "At most the configured number of submitted tasks are in progress (running or cleaning up, and not abandoned by cancellation) at any time, that many can be in progress together, and a further submission waits until one of them ends; a size below one is refused. Every task whose context stays live runs exactly once and then gets its cleanup call exactly once; a task whose context is already done does not run but still gets its cleanup call. Finished, skipped and cancelled tasks all give their slot back.",
  ["schedules", "histories", "fault_sequences"], "for every size, number of submitters and tasks, and pattern of cancelled contexts",
  "One test counts completed tasks; the concurrency bound, slot recovery after cancellation and blocking submission are never observed.",
  ["xworker/xworker.go", "xtask/do.go"],
  [("semaphore channel acquired in Run, released in the deferred cleanup", "xworker/xworker.go Run")],
  observe=["task start/end and cleanup events"])

p("C13", "Parallel mapping processes every item once and delivers every output once",
  "Without cancellation, every generated item is mapped exactly once, every value a mapper writes is accepted and delivered to the output exactly once, at once if a consumer waits even while the generator pauses, and the output ends after the last mapper has finished, even by exiting its goroutine, for the channel and the stream form alike. At most the configured number of mappers (one, if no positive number is configured) run together, that many can, and with one worker outputs keep the generation order.",
  ["schedules", "inputs", "configurations"], "for every number of items, outputs per item and workers, every consumer speed and interleaving",
  "The tests map ten items with one worker and count the outputs; parallel mapping, several outputs per item and the worker bound are not exercised.",
  ["xmapreduce/xmapreduce.go", "xworker/xworker.go", "xbarrier/writebarrier.go"],
  [("source loop, worker limiter, wait group before close", "xmapreduce/xmapreduce.go doMap")],
  observe=["generator, mapper and consumer events"])

p("C14", "Cancelling a parallel mapping ends it cleanly",
  "When the context of a parallel mapping is cancelled at any moment, the output ends even if nobody reads it and even if the generator is still busy, the generator is not left blocked, and no goroutine of the mapping remains once the user's functions have returned. A mapper's write reports success exactly if a consumer draining the output receives that value, once; writes started after cancellation report failure, and no write panics. No item is mapped twice.",
  ["schedules", "fault_sequences", "crash_points"], "for every cancellation moment relative to generator, mappers, writers and consumer, with a draining or an absent consumer",
  "The tests cancel after a one-second sleep, when nothing is in flight, and only count what came out.",
  ["xmapreduce/xmapreduce.go", "xworker/xworker.go", "xbarrier/writebarrier.go", "xtask/do.go"],
  [("context check in the source loop and in every layer below", "xmapreduce/xmapreduce.go doMap")],
  observe=["write results, received values, goroutine dump"])

p("C15", "A pooled byte buffer belongs to one holder",
  "An allocated byte buffer has the requested length and at least the requested capacity, and its whole capacity is disjoint from every other buffer not yet freed, including byte strings decoded from a stream, whatever was freed before and from wherever. Freeing any slice (re-sliced, grown, foreign, empty) keeps this true for later allocations of every size.",
  ["schedules", "histories", "inputs"], "for every sequence and interleaving of allocations and frees of any sizes and slice shapes",
  "The tests allocate a few sizes and look at lengths only; nobody checks that two live buffers do not overlap.",
  ["xbytes/pool.go", "xbinary/xbinary.go"],
  [("one pool per exact capacity, created once", "xbytes/pool.go getOrCreatePool"), ("re-slicing on allocation", "xbytes/pool.go Malloc")],
  observe=["buffer contents, lengths, capacities, addresses"])

p("C16", "Binary encoding round-trips over any fragmentation",
  "Any sequence of booleans, 16- and 32-bit integers and byte strings of up to 65535 bytes written to a stream is read back as the same sequence, consuming exactly the written bytes, however the reader fragments its data (single bytes, empty reads, data together with end of stream). The wire form is big-endian with a 16-bit length prefix. Encoding leaves the caller's memory as it was, and decoded values stay intact whatever is encoded or decoded afterwards, concurrently or not.",
  ["inputs", "schedules", "fault_sequences"], "for every value sequence, every legal fragmentation of the reader and every number of concurrent streams",
  "The tests encode or decode one small value from an in-memory reader that never splits its data.",
  ["xbinary/xbinary.go", "xbytes/pool.go"],
  [("read and write of fixed-size scratch buffers", "xbinary/xbinary.go")],
  observe=["encoded bytes, decoded values, reader position"])

p("C17", "Binary decoding and encoding never hide a failure",
  "Reading from a stream that ends or fails before a value is complete yields an error and never a value, for every value kind and every position of the fault, and the reader's own error is the one reported. A writer's failure at any byte is reported by the write call, which sends nothing further; a byte string longer than its length prefix can express is refused without writing anything.",
  ["fault_sequences", "inputs", "crash_points"], "for every value, every truncation point and every position and kind of reader or writer fault",
  "The tests truncate a few two- to four-byte inputs and use a writer that fails at once; faults inside a value and over-long strings are not tried.",
  ["xbinary/xbinary.go"],
  [("length checks and error propagation", "xbinary/xbinary.go")],
  observe=["returned errors and values, bytes sent to the writer"])

p("C18", "A pooled buffered reader or writer is exclusive, clean and large enough",
  "A buffered reader or writer taken from the pool reads only from, or writes only to, the stream it was taken for, with no data, error or state left from earlier users, and is held by nobody else until it is put back, even when the stream is itself a buffered reader or writer. Its buffer is at least as large as requested (the standard default when no size is given), whatever was put into the pool before.",
  ["histories", "schedules", "inputs"], "for every interleaving of takes, uses and puts of any sizes, over failing and nested streams",
  "The tests take and put one reader repeatedly without reading through it, with one fixed size and a private pool.",
  ["xio/buffer.go"],
  [("reset on take and on put, shared pools", "xio/buffer.go")],
  observe=["bytes read and written through the buffers, object identity, buffer size"])

p("C19", "A ring holds the most recent elements, atomically",
  "A size below one is refused when the ring is made. A ring of size n always reports the last min(n, added) elements in insertion order, and reporting does not consume them. Concurrent adds and reports behave as if executed one at a time in an order consistent with real time, and a reported list never changes afterwards and can be modified without affecting the ring.",
  ["schedules", "histories", "inputs"], "for every ring size, number of added elements and interleaving of adds and reports",
  "The tests add nine elements to rings of two sizes from one goroutine.",
  ["xring/xring.go"],
  [("index modulo size under a read/write lock, copy on report", "xring/xring.go Add/Take")],
  observe=["reported lists"])

p("C20", "Sequential stream operators compute what their list counterparts do",
  "For any finite source and any pipeline of operators, the elements, their order and the terminal results (count, first, last, any, all, traversals, chunks, groups) equal those of the same operations on lists, where single-worker map, filter, flat-map and walk count as sequential. This holds for every boundary argument (zero, one, exactly, more and far more than the number of elements), for empty streams, and whatever the caller does later with a slice of items it made a stream of. Elements are passed on as they are, never modified. Negative counts and chunk sizes below one are refused.",
  ["inputs", "programs", "schedules"], "for every source content, every pipeline and every argument",
  "Each operator has one or two fixed small examples; compositions, empty inputs and boundary arguments are mostly missing.",
  ["xstream/xstream.go", "xstream/ring.go", "xstream/collection.go"],
  [("one forwarding goroutine per stage, in order", "xstream/xstream.go"), ("ring for the tail", "xstream/ring.go")],
  observe=["elements received and terminal results"])

p("C21", "Parallel stream stages neither lose, repeat nor over-parallelise",
  "A parallel stage (walk, map, filter, flat-map, parallel finish) calls its function exactly once per input element and delivers exactly the multiset of outputs those calls produced. At most the configured number of calls run at a time and that many can; without a configured positive number there is one worker and order is kept. The stage's output ends, and the finishing form returns, only after every call has returned.",
  ["schedules", "inputs", "configurations"], "for every number of elements, outputs per element and workers, and every interleaving",
  "The tests run parallel stages over two to six elements and sort the results; worker bounds, exactly-once calls and completion order are not observed.",
  ["xstream/xstream.go", "xstream/option.go"],
  [("token channel, wait group, shared goroutine pool", "xstream/xstream.go Walk"), ("option defaults", "xstream/option.go loadOptions")],
  observe=["callback events, received elements"])

p("C22", "Streams terminate and strand no producer",
  "Operators that stop early (limit, first, any, all, zero tail) give their result as soon as it is determined, even if the source never ends, and keep consuming the source so that its producer is never left blocked, as do counting operators that refuse their argument. Operators that need not see the whole source pass each result on (a chunk once full, the end of a limit once reached) as soon as the elements it depends on have arrived, however long the source then pauses, and a buffer or a copy takes up as many elements as its size though nobody reads it. Once a finite source is exhausted and its consumers are done, no goroutine of the pipeline remains. A panic or goroutine exit in a stage's callback never leaves the consumer of that stage waiting for ever, and parallel stages still process all other elements.",
  ["schedules", "inputs", "fault_sequences"], "for every pipeline, stopping point and panicking callback, over finite and endless sources",
  "The leak checks in the tests run after tiny buffered sources whose producers cannot block; endless sources and panicking callbacks are not tried.",
  ["xstream/xstream.go"],
  [("background draining", "xstream/xstream.go drain callers"), ("close on every exit path", "xstream/xstream.go stage goroutines")],
  observe=["completion of terminal operations and generators, goroutine dump"])

p("C23", "Stream fan-in and fan-out preserve every element",
  "Concatenating streams delivers every element of every source exactly once, keeps each source's own order, and ends after all sources ended, whatever becomes of the caller's list of sources. Copying delivers the complete source sequence, in order, to every copy, and leaves the caller's list of copies alone. Peeking calls its function once per element in order, finishing before the stream ends, and changes nothing; splitting and grouping partition the elements into independent pieces, in order.",
  ["schedules", "inputs", "configurations"], "for every number and content of sources or copies, buffer sizes, consumer speeds and interleavings",
  "Fan-in and fan-out are tested with three to six elements, one schedule and counts of filtered elements.",
  ["xstream/xstream.go", "xstream/collection.go"],
  [("one forwarder per source with a wait group", "xstream/xstream.go Concat"), ("broadcast loop", "xstream/xstream.go Copy"), ("chunk ownership", "xstream/xstream.go Split, SplitSteam")],
  observe=["received elements and callback events"])

p("C24", "An error batch reports exactly the errors added",
  "A batch is empty until a non-nil error is added; it then reports all added errors in order, newline-separated, and a single one as itself, while nil errors leave no trace. An error already obtained from a batch does not change when more errors are added.",
  ["inputs", "histories"], "for every sequence of adds and queries and every error text",
  "The tests add at most two errors and query once.",
  ["xerror/err.go", "xstring/stringjoiner.go"],
  [("append-only list, joiner for the text", "xerror/err.go")],
  observe=["returned errors and texts"])

p("C25", "A joiner yields prefix, separated pieces, suffix",
  "At any point a joiner's text is the prefix, the pieces written since creation or the last reset separated by the delimiter, and the suffix, where every write call is one piece even if empty; growing never changes the text and makes room for the bytes asked for, and reset empties it. Its reported length is the length of that text and its capacity is never less; every write reports the size of its piece and no error.",
  ["inputs", "histories", "configurations"], "for every delimiter, prefix and suffix and every sequence of writes, grows and resets",
  "The tests write three pieces and read once; growing or resetting with a delimiter set is not tried.",
  ["xstring/stringjoiner.go"],
  [("delimiter before every piece but the first", "xstring/stringjoiner.go tryWriteStep"), ("length bookkeeping", "xstring/stringjoiner.go Len, Cap")],
  observe=["returned strings and numbers"])

p("C26", "Minimum and maximum are exact",
  "The integer minimum and maximum functions return exactly one of their arguments, the correct one, over the whole range of their type; the floating-point ones follow IEEE rules (not-a-number propagates unless the other argument is the extreme infinity, positive zero exceeds negative zero, infinities compare) and otherwise return one of their arguments exactly.",
  ["inputs"], "for every pair of arguments of the type",
  "The tests try the numbers one, two and three.",
  ["xmath/xmath.go"],
  [("comparison", "xmath/xmath.go")],
  observe=["return values"])

p("C27", "String transformations are exact on Unicode text",
  "On any valid UTF-8 text the slicing, padding, repeating, removing, trimming, rotating, reversing, shuffling and whitespace-deleting functions act on whole characters: results equal the same operation on the character list for every index, shift and size (out-of-range and negative ones included), are valid UTF-8, and leave the input unchanged. Padding reaches exactly the requested character count unless the text is already that long; rotation, reversal and shuffling keep the multiset of characters, shuffling can yield every order, and reversing twice or rotating back restores the text. Malformed text is reported by reversal as an error.",
  ["inputs"], "for every valid UTF-8 text, every pad or removed character and every integer argument",
  "The tests use about ten short strings, mostly ASCII, with a few in-range arguments.",
  ["xstring/xstring.go", "internal/hack/xstring.go"],
  [("rune-indexed slicing", "xstring/xstring.go sub"), ("pad arithmetic", "xstring/xstring.go padCharLeftOrRight, PadCenterChar"), ("unsafe zero-copy conversions", "internal/hack/xstring.go")],
  observe=["returned strings"])

p("C28", "String comparison and classification agree with their definitions",
  "On any valid UTF-8 text, the case-insensitive equality, containment, region and suffix tests answer exactly according to character-wise case-insensitive equality of the compared regions, and the case-sensitive ones according to exact equality. Emptiness, blankness, letter/digit and decimal-number classification answer according to the characters of the whole text, and a default is substituted exactly for empty (or blank) text. The first-difference index, difference and common prefix agree with the longest common character prefix of all arguments. Lists of texts given as arguments are left as they were.",
  ["inputs"], "for every tuple of valid UTF-8 texts and every region argument",
  "The tests try a handful of ASCII pairs per function.",
  ["xstring/xstring.go"],
  [("region comparison with case folding", "xstring/xstring.go RegionMatches"), ("scan to first difference", "xstring/xstring.go IndexOfDifference"), ("predicates", "xstring/xstring.go Is*")],
  observe=["returned booleans, indices and strings"])

p("C29", "Abbreviation respects the width and shows the right part",
  "Abbreviating to a positive maximum width never returns more characters than that width, returns the text unchanged exactly when it fits, and otherwise fills the width with a contiguous part of the text with the marker replacing what was cut at the end, at the beginning, or at both, such that the requested offset is in the part shown when the width allows, an offset outside the text meaning its nearer end. Widths too small for the marker (or for a marker on each side, when needed) are refused with an error. An empty marker means plain truncation.",
  ["inputs"], "for every text, marker, offset and width",
  "The seven tests all use offset zero, so the whole offset half of the function never runs.",
  ["xstring/xstring.go"],
  [("width and offset arithmetic", "xstring/xstring.go Abbreviate")],
  observe=["returned string and error"])

p("C30", "Hand-offs through the library are free of data races",
  "Data written before it is handed to a concurrency facility (stored in a map, cell, ring or managed resource, sent through a barrier, mapping or stream, or guarded by the spin lock) may be read without further synchronisation by whoever receives it, and effects of a user function run by the library are visible, race-free, to code running after the call that reports its completion (controlled call, worker cleanup, end of mapping or stream). Calls that the library runs one at a time (a stage or mapping with one worker, a worker limiter of size one) follow each other race-free. No use of the facilities from several goroutines races inside the library.",
  ["schedules", "programs"], "for every facility, every pair of goroutines handing data over through it, and every interleaving",
  "The race detector runs over tests that share almost no unsynchronised data through the library, so missing happens-before edges cannot show.",
  ["xsync/map.go", "xsync/shared_map.go", "xsync/spinlock.go", "xsync/resourcemanager.go", "xonce/value.go", "xonce/chan.go", "xbarrier/readbarrier.go", "xbarrier/writebarrier.go", "xtask/do.go", "xworker/xworker.go", "xmapreduce/xmapreduce.go", "xring/xring.go", "xstream/xstream.go", "xbytes/pool.go", "xio/buffer.go"],
  [("atomic publication, channel and lock edges", "all concurrency packages")],
  observe=["race detector reports over plain-memory payloads"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
