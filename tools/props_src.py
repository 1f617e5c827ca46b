HOOKS = {"guard": "none", "enable": "no hooks are used: contracts live in /verif/contracts keyed by function, the verifier reads /repo's source directly", "source_commits": []}
NOTES = "Every check builds /verif/gov on first use (cached in /verif/.build), loads /repo's current source with go/packages and go/ssa, and discharges the contracts in /verif/contracts."
TODO = "not built yet"
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, observe, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, **kw))

P("P01", "Interval operations compute exact set complement, intersection and union",
  "Over any totally ordered value type, combining two intervals by intersection or union yields an interval holding exactly the common (respectively combined) values, and reports failure only when the two share no value. Negating an interval inside the basis yields one or two well-formed intervals that together hold exactly the basis values outside it. The ordering predicates (before, after, starts-before, ends-after) agree with the positions of the values the intervals hold.",
  ["inputs"], "every total order, every pair of well-formed intervals, every open/closed combination of bounds, every value",
  "Tests sample a few integer intervals; the claim ranges over every order, bound combination and value, including values equal to a bound.",
  ["pkg/intervals/intervals.go"], [("Negate, Intersect, Union, Before, After, StartsBefore, EndsAfter", "pkg/intervals/intervals.go")], ["returned intervals"],
  note="All obligations proved for an arbitrary total order. Trusted: the comparison function is a total preorder and pure.", min=60)

P("P02", "Query conditions over record time select exactly the satisfying instants",
  "For every valid query condition over record creation time, the time intervals derived from it contain exactly the instants of the supported range for which the condition is true, for every nesting of AND, OR and NOT and every comparison operator. The intervals are sorted, disjoint and well formed, and no condition makes the derivation crash.",
  ["inputs", "programs"], "every parsable condition (any nesting depth and length), every instant",
  "Tests check a dozen conditions; the boolean structure, the operators and the boundary cases (bounds equal to the limits of time, empty operands) cannot be enumerated.",
  ["pkg/ql/intervalbuilder.go", "pkg/intervals/intervals.go"], [("intervals builder: union, intersect, negate over lists", "pkg/ql/intervalbuilder.go")], ["query results by time condition"],
  na=TODO)

P("P03", "Log conditions evaluate with standard boolean and comparison semantics",
  "Evaluating a parsed condition against a log gives the truth value of the written formula: OR of ANDs of possibly negated comparisons, IN means membership, LIKE means pattern matching with % standing for any sequence and _ for one character. Evaluation depends only on the condition and the log, and never crashes for a condition that compiled.",
  ["inputs", "programs"], "every condition of the grammar and every log (id, tags)",
  "Tests sample specific formulas; formulas nest without bound and string patterns are unbounded.",
  ["pkg/ql/evaluator.go"], [("expression builder and like matcher", "pkg/ql/evaluator.go")], ["log query results"],
  na=TODO)

P("P04", "Translated SQL keeps the condition's structure and keeps literals as data",
  "The SQL produced for a condition has the same AND/OR/NOT structure and the same operators and operands as the condition, and every string literal of the condition appears in it as one quoted SQL literal whose value is the original string. Unsupported identifiers, operators or functions are rejected with an error instead of being emitted.",
  ["inputs", "programs"], "every condition of the grammar, every literal (including quotes)",
  "Tests compare a few translated strings; literals and nesting are unbounded.",
  ["pkg/ql/translator.go", "pkg/ql/dialect.go"], [("translator and dialect", "pkg/ql/translator.go")], ["the SQL text"],
  na=TODO)

P("P05", "Records appended to a chunk are stored intact without disturbing the others",
  "After a successful append to a chunk, exactly the reported number of leading records is stored with the reported first and last identifiers and their payload bytes unchanged, and every record stored before keeps its identifier, position and bytes, also when the file had to grow. A chunk never exceeds its maximum size, payload and index regions never overlap, and a batch that only partly fits is stored up to the last record that fits.",
  ["inputs", "histories"], "every chunk state reachable by appends, every batch size and payload length, every growth",
  "Tests write a few batches; the arithmetic of offsets, index growing downwards and partial fits depends on sizes no test enumerates.",
  ["pkg/storage/chunkfs/chunk.go", "golibs/files/mmfile.go"], [("AppendRecords, writable, growForWrite, metaBuf", "pkg/storage/chunkfs/chunk.go")], ["chunk contents through a reader"],
  na=TODO)

P("P06", "A chunk reader visits each stored record once, in order, from the start position",
  "A reader opened on a chunk yields the stored records one by one in identifier order (reverse order when descending), each with its identifier and payload, and then reports the end. Positioning at an identifier makes the reader continue at the first record at or after it (at or before it when descending), and reports exactly the number of records left.",
  ["inputs", "histories"], "every chunk content sorted by identifier, every start identifier, both directions",
  "Tests use a few identifiers; presence, absence and extremes of the start identifier over all contents need a proof of the binary search and index arithmetic.",
  ["pkg/storage/chunkfs/chunk.go"], [("ChunkReader HasNext/Next/SetStartID, metaBuf", "pkg/storage/chunkfs/chunk.go")], ["records returned by a reader"],
  note="Reader functions proved for every chunk content satisfying the chunk invariant (payload and index regions disjoint, index entries within the payload region) and sorted identifiers; the binary search (sort.Search) is proved from its library source. The chunk invariant itself is what P05 maintains.", min=150, trusted=["github.com/oklog/ulid.ULID.Compare is the order of the 128-bit numbers", "mmap-go and os file calls"])

P("P07", "Time intervals map to record-identifier ranges exactly",
  "For a chunk and a list of time intervals, a record of the chunk lies in one of the derived identifier ranges exactly when its creation time lies in one of the intervals, including at open and closed bounds. Restricting the ranges to a start identifier and direction keeps exactly the records at or after it (at or before when descending), in reading order.",
  ["inputs"], "every list of sorted disjoint intervals, every chunk range, every start identifier and direction",
  "Tests use a handful of ranges; off-by-one-millisecond errors at open bounds or between ranges show only for particular values.",
  ["pkg/storage/logfs/locallog.go"], [("getRanges, toRange, considerSIDAndDesc, reverseRanges", "pkg/storage/logfs/locallog.go")], ["records selected by a query"],
  note="toRange, minULIDForTime, maxULIDForTime (with the loops of the oklog/ulid Time, SetTime, SetEntropy bodies they call), getRanges, considerSIDAndDesc and reverseRanges proved for every list of proper disjoint intervals of the time basis, every chunk range, every start identifier and both directions. time.Time is the trusted nanosecond model of the verifier.", min=60,
  trusted=["time.Time modelled as its number of nanoseconds (Add, Sub, Truncate, Before, After, Equal, UnixMilli)", "ulid.ULID.Compare is the order of the 128-bit numbers"])


P("P08", "Record identifiers have exact successors and predecessors",
  "The identifier computed as next after a valid record identifier is the smallest identifier greater than it, and the one computed as previous is the greatest identifier smaller than it, as 128-bit numbers with wrap-around at the extremes. Text that is not an identifier is refused by a panic, never mapped to some other identifier.",
  ["inputs"], "every 128-bit identifier", "Carry and borrow over 16 bytes: tests cover a few values of 2^128.",
  ["golibs/ulidutils/ulidutils.go"], [("NextID, PrevID", "golibs/ulidutils/ulidutils.go")], ["page tokens and iterator positions"],
  note="Both functions proved for all 2^128 identifiers (loops unrolled over the 16 bytes). Trusted: ulid.Parse returns the number its text denotes and ULID.String is its canonical inverse.", min=20)

P("P09", "Paged record queries neither lose nor repeat records",
  "Reading records page by page, passing the returned page token as the next start, yields the same records in the same order as one unlimited read, in both directions and for one or several logs. A page never holds more records than the limit, and, for a positive limit, a token is returned whenever the page was cut short.",
  ["inputs", "histories"], "every log content, limit, direction and number of logs",
  "Tests read one or two pages; the token arithmetic must be right at every page boundary.",
  ["pkg/api/service.go", "pkg/api/riterator.go"], [("QueryRecords, record iterator", "pkg/api/service.go")], ["pages returned by the API"],
  note="The record iterator (fillBuf, HasNext, Next) and Service.QueryRecords proved against abstract log contents: the identifiers of a log that match a condition as a strictly growing sequence, a read as the segment from its start on. A page over one log is exactly the next records, its token names the position right after them, and there is a token unless all is read; a page over several logs is the next records of the stream newMixer returned and its token is the identifier of the first record after them. Lemmas lgAt/lgAfter/lgBefore are the token arithmetic in both directions. That the merged stream is the ordered union of the logs is P10.", min=30,
  trusted=["storage.Log.QueryRecords: returns the matching records from the start on in order, at most limit of them, at least one if there is one and the limit is positive, and says so when there are no more", "identifiers are unique over the logs of a query, valid ULIDs and neither the least nor the greatest of all", "iterable.Iterator (returned by newMixer): HasNext is exact and Next follows it", "context.Context.Err: stays set"],
  unreached=["limits of zero and below: no records and no crash, but no token is claimed"])

P("P10", "Merging record streams keeps order and loses nothing",
  "Merging two streams yields every element of both exactly once, keeping each stream's own order, always taking next the element the selection function prefers. When both inputs are sorted by that function the output is sorted, and asking whether there is a next element changes nothing observable. A query over several logs reads every one of them through exactly one stream and merges all of them in the order of the query.",
  ["inputs", "histories"], "every pair of streams of any length, every selection function, every interleaving of the two calls",
  "Tests merge short fixed lists; the lookahead state machine has states only particular call orders reach.",
  ["golibs/container/iterable/mixer.go", "pkg/api/mixer.go"], [("Mixer", "golibs/container/iterable/mixer.go")], ["elements returned"],
  note="Mixer.Init/HasNext/Next/Reset/Close, EmptyIterator, newRIterator, the two record orders and newMixer proved: an iterator is an arbitrary stream with a ghost position; newMixer is proved with ghost spans of source numbers (every log has exactly one leaf, leaves of the result are all of them in one binary tree merged by one order).", min=30,
  trusted=["Iterator interface values behave as streams (HasNext does not move them, Next returns successive elements)", "selection functions are deterministic and free of effects", "two sources of a Mixer are different objects"])

P("P11", "Binary encoding round-trips and rejects short buffers without crashing",
  "Decoding what was encoded gives back the same value and consumes exactly the bytes written, for every integer, byte string and string, and the size functions predict exactly the bytes written. Encoding into a too short buffer and decoding input shorter than it announces return an error, and no input whatsoever makes the decoder crash or read outside the buffer.",
  ["inputs"], "every value, every buffer content and length", "Tests use a few values; truncated and adversarial inputs and every varint length need all inputs.",
  ["golibs/xbinary/xbinary.go"], [("Marshal*/Unmarshal*/Writable*Size", "golibs/xbinary/xbinary.go")], ["encoded bytes, decoded values"],
  note="Every encoder, decoder and size function proved for all values and all buffers; the variable-size form is specified byte by byte. Trusted: the two unsafe string/byte casts, io.Writer reporting a short write as an error. Requires the encoded slice and the target buffer not to share memory.", min=150, trusted=["golibs/cast string/byte casts (unsafe)", "io.Writer.Write"])

P("P12", "Block storage never hands out an allocated block and frees only allocated ones",
  "Allocating a block returns one that was free and marks only that one as used, or reports exhaustion only when no block is free; freeing makes exactly the given allocated block free again and refuses blocks that are not allocated or do not exist. The free counter always equals the number of free blocks, and distinct blocks never share bytes with each other or with the bookkeeping headers.",
  ["inputs", "histories"], "every storage size, block size and sequence of allocations and releases",
  "Tests run short sequences on small storages; a wrong bit, header offset or free hint appears only in particular histories.",
  ["golibs/container/bytes/blocks.go"], [("ArrangeBlock, FreeBlock, Block, counters", "golibs/container/bytes/blocks.go")], ["block indices and block memory"],
  na=TODO)

P("P13", "Ring buffer and slice helpers behave as their mathematical sequences",
  "The ring buffer is a bounded FIFO: reads return elements in insertion order exactly once, positional access agrees with the queue contents, and its length always equals insertions minus removals and never exceeds its capacity. The slice helpers (copy, fill, reverse, exclude, index, remove) return exactly the described result and change nothing else.",
  ["inputs", "histories"], "every capacity, history of operations and element values",
  "Wrap-around positions depend on the history; tests reach a few.",
  ["golibs/container/ringbuffer.go", "golibs/container/sliceutils.go"], [("RingBuffer; slice utilities", "golibs/container")], ["returned elements"],
  note="Every ring buffer method and slice helper proved for all contents and element types. NewRingBuffer assumes a size below 2^40.", min=80, unreached=["container.MergeSlicesUnique (bounded stand-in)", "the number of container.Values (bounded stand-in; membership is proved)"])

P("P14", "Insertion-ordered map iterates live entries in order, once each",
  "The ordered map holds exactly the keys added and not removed, finds each with its latest value, and iterates them in insertion order. An iterator that is open while entries are added or removed never returns an entry removed before it got there, never repeats one, and never skips a live entry.",
  ["histories", "inputs"], "every history of additions, removals and iterator steps",
  "The linked structure with pinned, already deleted nodes is only exercised by particular interleavings of removal and iteration.",
  ["golibs/container/iterable/map.go"], [("Map and its iterator", "golibs/container/iterable/map.go")], ["entries returned"],
  note="Map and its iterator proved over the linked structure: one invariant (places strictly growing along next, prev the inverse of next, the last item the only end mark, deleted items kept only while an iterator stands on them, the index pointing exactly at the live items, items of other maps and pooled items apart) kept by Add, Remove, First, Iterator, HasNext, Next and Close. Entries keep value and place under every operation that does not name them; Next gives the live entry of the lowest place not below the iterator's own and moves just behind it, or the end; the place and count of every other open iterator is kept.", min=300,
  trusted=["sync.Pool hands out an item nobody else holds, of this map's item type, with no iterator on it", "fewer than 2^60 iterators are open at once", "the map is used by one goroutine at a time (its callers lock)"])

P("P15", "LRU caches hold at most their capacity and evict the least recently used entry",
  "A bounded cache never holds more entries than its size, a hit returns the stored value and makes the entry the most recent, and a miss creates the value once and evicts only the least recently used entry when full. Every evicted or removed entry is reported to the removal callback exactly once, and a failed creation stores nothing.",
  ["histories", "inputs"], "every history of lookups, removals and clears, every capacity",
  "Recency order after a long history is not sampled by the unit tests.",
  ["golibs/container/lru/cache.go", "golibs/container/lru/ecache.go"], [("ECache, Cache", "golibs/container/lru")], ["cached values and callbacks"],
  note="ECache (and NewCache over it) proved as a monitor over the proved ordered map: at every unlock of GetOrCreate every other entry keeps value and place, except that in a full cache a stored miss removes exactly the entry of the lowest place and reports it once with its own key and value; a hit or a stored miss ends up behind all others; a value is created at most once and only when the key was absent at the lock; a failure stores nothing. Remove and Clear report every removed entry once. Only the goroutine that registered a creation unregisters it and closes its channel (closing twice is a proof obligation).", min=250,
  trusted=["sync.Mutex gives mutual exclusion; every access to an ECache goes through its methods", "the create and removal functions return (no panic) and do not call the cache back", "the key mapping function is pure"],
  unreached=["ExpirableCache and ReleasableCache (outside the statement)", "termination of waiting for another goroutine's creation"])

P("P16", "Exclusive access to a chunk file is granted to one user at a time",
  "A chunk is never granted for writing while it is being written or deleted, and never for deletion while it is open, written or deleted; a second open of an open chunk is refused. Releasing returns it to idle or forgets it when nobody has it open, so a released chunk can be acquired again, and every refusal leaves the recorded state unchanged.",
  ["schedules", "histories"], "every sequence of atomic steps of any number of users",
  "Unit tests run a few interleavings; mutual exclusion must hold for every interleaving of the lock-protected steps.",
  ["pkg/storage/chunkfs/caccessor.go"], [("chunk accessor state machine", "pkg/storage/chunkfs/caccessor.go")], ["granted accesses"],
  note="ChunkAccessor proved as a monitor: an invariant over the recorded chunks (who uses, who waits, which channels are closed), a transition guarantee checked at every unlock (writing granted only to an unused chunk, deleting only to an untouched one, waiters woken), and per operation the exact step and the exact answer as a function of the state at the lock. Closing a channel twice is a proof obligation. Fairness and termination of waiting are not decided.", min=200,
  trusted=["sync.Mutex gives mutual exclusion", "context.Context: Err is set once Done is closed", "only this file touches ChunkAccessor fields (they are unexported; the package has no other user)"])

P("P17", "A local chunk file is removed only when that loses no data",
  "Removing a chunk locally with synchronisation requested deletes the local file only after the remote copy was stored, and failing to obtain exclusive access deletes nothing. Contradictory flags are rejected before anything is touched, the access right is always given back, and an empty-file cleanup removes only files it holds exclusively.",
  ["fault_sequences", "histories"], "every outcome (success or failure) of every file and storage operation",
  "Tests exercise the success path; each failing operation combination is a different history.",
  ["pkg/storage/chunkfs/replicator.go", "pkg/storage/chunkfs/scanner.go", "pkg/storage/chunkfs/provider.go"], [("Replicator.DeleteChunk, UploadChunk; DeleteFileIfEmpty", "pkg/storage/chunkfs")], ["local files and remote objects"],
  note="NewZipWriter/Create/Close, getStorageKey, zipFile, zipAndUploadChunk, DeleteChunk, UploadChunk, DownloadChunk, downloadZip, unzip, createScanInfo, DeleteFileIfEmpty, sweep and replicate proved over a ghost file system (a content version per path) and a ghost remote storage (a content version per key); every file and storage operation may fail. Releasing a right the caller does not hold is a failing precondition.", min=250,
  trusted=["os.Remove/Stat/Open/Create, io.Copy, archive/zip: the stated effect on the file they name and on no other", "sss.Storage Put/Delete/Get: a nil error means done, other keys unaffected", "nobody but the holder of the access right changes a chunk file meanwhile", "different chunk ids have different file names and storage keys, none is another one's .zip name", "flags are not negative, chunk ids have at least two characters", "sort.Slice permutes"])

P("P18", "Versioned key-value store updates are compare-and-swap",
  "A conditional update succeeds only when the caller's version equals the stored one, gives the record a new version, and otherwise reports a conflict and changes nothing; creation succeeds only when no live record has the key; deletion and expiry make the key absent, and a caller waiting for the version of a record to change is told when it does. Operations on one key never affect another key.",
  ["histories", "inputs"], "every sequence of operations on every set of keys",
  "Tests run short sequences; lost updates or cross-key effects need particular histories.",
  ["golibs/kvs/inmem/inmem.go"], [("in-memory storage", "golibs/kvs/inmem/inmem.go")], ["records returned"],
  note="Create, Get, GetMany, Put, PutMany, CasByVersion, Delete, ListKeys, WaitForVersionChange, New and the key iterator proved against a monitor of the service lock: at every unlock the other keys are untouched, changed content means a version never issued before, and who waits for a changed record is told. Versions are a ghost set of issued identifiers, expiry is decided against the last reading of the clock.", min=500,
  trusted=["ulidutils.NewID returns an identifier not issued before", "glob.Compile returns a matcher or an error", "time.Time.Before compares instants"])

P("P19", "Errors keep their class across the service boundary",
  "Every error of a transferable class (exists, not exists, invalid, not authorized, internal, data loss, exhausted, unimplemented, conflict, canceled), however deeply wrapped, is turned into a remote error of the corresponding code, and the receiver classifies it as that class and no other; the service returns every storage failure this way and the HTTP front end answers with the status of the class. An error that is already remote passes through unchanged, and success stays success.",
  ["inputs"], "every error value and wrapping depth, every status code",
  "Tests check a few classes unwrapped; the mapping must be a bijection on classes for every wrapping.",
  ["golibs/errors/errors.go", "golibs/errors/grpc.go", "pkg/api/service.go", "pkg/api/rest/rest.go"], [("GRPCWrap, GRPCStatusCode, FromGRPCError, Is", "golibs/errors")], ["status codes and error classes"],
  note="Proved for every error value. Trusted: gRPC status.Code/status.Error, errors.Is on the wrap chain, gin.Context.JSON, the storage interfaces. QueryRecords is covered by the search harness only.", min=600, trusted=["google.golang.org/grpc/status.Code and Error: a fresh status error carries the code it was made with and wraps nothing", "gin.Context.JSON writes the given status"], unreached=["api.Service.QueryRecords"])

P("P20", "Cached metadata never serves a log or chunk list older than the last change",
  "After a successful update or deletion of a log, or a change of its chunk list, made through the cached storage, the next read returns what the underlying storage holds. A failed change or failed read is reported and leaves nothing stale behind, and reads of one log never return another log's data.",
  ["histories", "fault_sequences"], "every sequence of reads and changes, with every operation possibly failing",
  "Tests check single invalidations; staleness needs particular sequences.",
  ["pkg/storage/cache/cache.go"], [("CachedStorage", "pkg/storage/cache/cache.go")], ["values returned by reads"],
  note="Every operation of CachedStorage proved, in sequential histories, against ghost state for what the storage answers now and what the caches hold: whatever is cached is what a read would return, kept by every operation also when the storage operation fails before or after its effect; reads return the present content or an error, GetLastChunk the greatest identifier of the present list, and an operation succeeds exactly when the storage operation did. The functions NewCachedStorage gives to the caches are proved to read the right log and to order the chunks (obligation at the call of NewCache).", min=120,
  trusted=["lru.Cache in sequential histories behaves as proved under P15 (restated as an assumed contract: hit, miss, removal, possible evictions)", "the storage: a change affects only the log named (DeleteLogs: on success the logs it returns)", "values handed out are not modified afterwards"],
  unreached=["a change made while another goroutine is reading the same log into the cache (outside the quantifier)"])

P("P21", "Log append, query and count agree with the stored records",
  "Appending to a log reports how many leading records were stored and registers every chunk written with its exact first and last identifier and record count; a query returns, in order and up to the limits, exactly the stored records that satisfy the condition and the start identifier. Counting returns the number of stored records and the number the same query without limits would return.",
  ["histories", "inputs", "fault_sequences"], "every log content over any number of chunks, every condition, start, direction and limit, every failing chunk operation",
  "Tests use a few chunks and conditions; chunk boundaries, start identifiers and limits combine without bound.",
  ["pkg/storage/logfs/locallog.go"], [("AppendRecords, QueryRecords, CountRecords", "pkg/storage/logfs/locallog.go")], ["API results"],
  na=TODO)

P("P22", "Log catalog operations keep logs and chunk lists consistent",
  "A created log is found unchanged until updated or deleted, deletion removes exactly the logs selected by the condition, and listing pages through exactly the selected logs without loss or repetition. The chunk list of a log contains each registered chunk once with its last registered data, and belongs to that log only.",
  ["histories", "inputs"], "every history of catalog operations", "Tests run short histories against the database.",
  ["pkg/storage/buntdb/buntdb.go", "pkg/storage/postgres/postgres.go"], [("embedded and SQL catalogs", "pkg/storage/buntdb/buntdb.go")], ["catalog reads"],
  na=TODO)

P("P23", "The distributed lock is held by at most one owner",
  "At any time at most one holder owns a named lock, whatever the interleaving of acquisitions, releases and renewals by different processes. A lock abandoned by its holder becomes available after its lease expires.",
  ["schedules", "fault_sequences"], "every interleaving of holders, renewals and lease expiries",
  "Tests run two goroutines once; schedules and clock behaviour are unbounded.",
  ["golibs/kvs/distlock/kvlock.go"], [("kv lock", "golibs/kvs/distlock/kvlock.go")], ["lock ownership"],
  na="a history property over concurrent processes, lease timers and a remote store: no per-function contract of the lock code expresses it without assuming the store's protocol and real-time behaviour, which is the property itself")

P("P24", "Acknowledged records survive a crash of the process or host",
  "Every record whose append was acknowledged is readable after the process or the host restarts. A crash in the middle of an append leaves the chunk readable with a prefix of the batch.",
  ["crash_points"], "every crash point of every append, including partial page write-back",
  "Tests never crash the process; write-back order of mapped pages is outside their control.",
  ["pkg/storage/chunkfs/chunk.go", "golibs/files/mmfile.go"], [("header update after payload and index", "pkg/storage/chunkfs/chunk.go")], ["chunk file after restart"],
  na="contracts speak about states at function boundaries; the order in which the kernel writes back mapped pages at a crash is not visible to the code or to any contract on it")

P("P25", "Readers and writers of one log are linearizable",
  "Concurrent appends and queries on a log behave as if executed one at a time in some order respecting real time. No query observes a partially written batch of a chunk.",
  ["schedules"], "every interleaving of goroutines", "Unit tests run few goroutines; the race detector samples schedules.",
  ["pkg/storage/logfs/locallog.go", "pkg/storage/chunkfs/chunk.go"], [("per-log lock, chunk read-write lock", "pkg/storage/logfs/locallog.go")], ["query results under concurrency"],
  na="linearizability quantifies over schedules of goroutines with shared memory; the sequential contracts here assume the lock discipline rather than prove it, and no concurrent deductive verifier for Go is available")
