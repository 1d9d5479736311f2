#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json.

Run from /verif:  python3 tools/props.py
"""
import json, os, sys

P = []

def prop(id, title, statement, over, qtext, why, files, mech, level="exploration",
         technique=None, note=None, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, level=level, technique=technique, note=note,
                  state=state, observe=observe, hook=hook))

M = lambda name, where: {"name": name, "where": where}

prop("C01", "vector_set behaves as an ordered set with positional access",
     "For every sequence of insertions, removals, clears and lookups, a vector_set contains exactly the distinct keys an ordered set would contain, in comparator order. Every lookup (find, contains, lower_bound, upper_bound, index_of, find with position, positional access, front/back, forward and reverse iteration, equality, heterogeneous keys that match at most one element) returns exactly what the ordered set with those contents returns, and iterators returned by insert/emplace/erase and those held on other elements keep denoting the right element. Out-of-range positions passed to the checked accessor are rejected with an exception.",
     ["inputs", "histories"], "all operation sequences over all key multisets, comparators (less, greater, by-member, transparent) and sizes",
     "Unit tests drive a few random insert/erase loops over ints; removal shapes in a red-black tree with subtree counters are exponential in number and a counter or linkage slip shows only after particular rotations.",
     ["Awl/VectorSet.h"],
     [M("red-black insert/remove and rotations keeping subtree counts", "Awl/VectorSet.h: InsertNode, RemoveNode, BalanceAfterInsert, BalanceAfterRemove, RotateLeft, RotateRight"),
      M("index lookup", "Awl/VectorSet.h: FindNodeByIndex / index_of / find2"),
      M("linked-list threading for iteration", "Awl/QuickList.h, Awl/QuickLink.h")],
     technique="differential runtime monitor (sorted-vector model) under ASan+UBSan, online after every operation",
     note="Held on the operation histories explored (random, adversarial ascending/descending/zig-zag/drain shapes, exhaustive small permutations); equality with the model is checked after every operation or every k operations for big sets. No claim beyond the histories driven.")

prop("C02", "vector_set operations stay logarithmic after any history",
     "After any history of insertions and removals of n remaining elements, finding, inserting, removing an element by key and locating it by position or computing its position visits at most a small constant times log2(n+1) elements. The bound holds for adversarial removal orders as well as random ones.",
     ["histories"], "all histories of insertions and removals, including adversarial removal orders chosen from the observed shape",
     "Tests measure nothing about depth; a broken rebalance keeps every functional answer correct and degrades only after specific removal sequences.",
     ["Awl/VectorSet.h"],
     [M("red-black recolouring on insert/remove", "Awl/VectorSet.h: BalanceAfterInsert, BalanceAfterRemove")],
     technique="comparison-count monitor (counting comparator) under adaptive adversarial workloads",
     note="Cost is observed at the comparator: number of distinct elements compared by one lookup is the search depth. Positional lookups are bounded through the same depth. The bound is the red-black bound 2*log2(n+1) plus slack.")

prop("C03", "vector_set value semantics, element stability and resource safety",
     "Copying, moving, assigning and comparing vector_sets behaves like values: a copy is independent and equal, a moved-from set is empty and usable, self-assignment changes nothing. Elements never move in memory while they stay in the set, every element and allocation is released exactly once, through the same allocator that supplied it. If an element constructor, copy or comparison throws, nothing is leaked or destroyed twice, and an insertion or removal that throws leaves the set's elements as they were.",
     ["inputs", "histories", "fault_sequences"], "all histories of copies, moves, assignments, allocators and every position at which a constructor, copy, allocation or comparison may throw",
     "Tests use ints and strings with the default allocator and never make an element throw, so lifetime errors on failure paths are unreachable for them.",
     ["Awl/VectorSet.h"],
     [M("node creation/destruction", "Awl/VectorSet.h: CreateNode, DestroyNode"),
      M("copy/move constructors and assignment", "Awl/VectorSet.h: vector_set special members")],
     technique="instrumented element/allocator ledger with enumerated throw points, ASan+UBSan+LSan",
     level="fault_enumeration",
     note="Every throw point of each scripted history is enumerated (k-th constructor/copy/compare/allocation); histories themselves are sampled.")

prop("C04", "ring buffer holds the last N values in order",
     "A ring of capacity N always contains, in order, exactly what a double-ended queue limited to N elements would contain when pushing to a full ring at one end discards the element at the other end. Size, front, back, positional access (with its range check), iteration in both directions, copy, move, assignment, swap, pop and clear agree with that queue for all capacities and after any wrap-around. Each stored value is constructed and destroyed exactly once, including values pushed by reference to an element of the same ring and pushes whose constructor throws.",
     ["inputs", "histories", "fault_sequences"], "all operation histories, capacities, element types and throw points",
     "Tests use one capacity and a few pushes; wrap-around arithmetic and overwrite-on-full interact with position, copy and exception state in combinations they never reach.",
     ["Awl/Ring.h"],
     [M("index arithmetic modulo capacity and overwrite on full", "Awl/Ring.h: push_back/push_front/emplace, iterators"),
      M("copy/move/clear", "Awl/Ring.h: copy(), move(), clear()")],
     technique="differential monitor (bounded deque model) + element lifetime ledger, ASan+UBSan",
     note="Held on the sampled histories; small capacities are enumerated exhaustively for all operation words up to a length.")

prop("C05", "intrusive lists stay consistent under any linking history",
     "Intrusive singly and doubly linked lists always contain exactly the elements that were pushed or inserted and not yet removed, in the right order, forwards and backwards, whatever mix of push, pop, insert, erase, exclusion, list appending and list moving happens. A link reports itself included exactly while its element is in a list, removing an element leaves its neighbours joined, moving an element with a movable link puts the new element in the old one's place, and an element can be in several lists at once through different links. Moving or appending a list transfers all its elements in order and leaves the source empty and usable.",
     ["histories"], "all histories of list and link operations over several lists and elements, including moves of linked elements",
     "Tests exercise short fixed scripts; relinking errors show only with particular neighbours (empty, single, first, last) and multi-list histories.",
     ["Awl/QuickList.h", "Awl/QuickLink.h", "Awl/SingleList.h", "Awl/SingleLink.h", "Awl/DoubleIterator.h", "Awl/SingleIterator.h", "Awl/DoubleNodeIterator.h", "Awl/SingleNodeIterator.h"],
     [M("link insert/exclude, auto-exclusion on destruction", "Awl/QuickLink.h"), M("push/pop/move/append", "Awl/QuickList.h, Awl/SingleList.h")],
     technique="differential monitor (vector-of-pointers model) with full two-way walk after each operation, ASan+UBSan",
     note="Held on sampled histories over up to 4 lists and 12 elements plus exhaustive short words.")

prop("C06", "Observers are notified exactly while subscribed",
     "Every notification reaches exactly the observers that are subscribed when it starts, once each, in subscription order, and never an unsubscribed or destroyed one. Observers unsubscribe themselves on destruction, destroying the observable leaves its observers unsubscribed and safe, and moving an observer or an observable transfers the subscription. An observer may unsubscribe or destroy itself inside its own notification, and may subscribe a further observer, without disturbing the others; whether the further one already hears the notification in progress is left open.",
     ["histories"], "all histories of subscribe, unsubscribe, move, destroy and notify over several observables and observers, in any destruction order",
     "Tests use two or three observers in one fixed order; dangling links appear only for particular destruction/move orders.",
     ["Awl/Observable.h", "Awl/QuickLink.h", "Awl/QuickList.h"],
     [M("intrusive subscription list with auto-unlink", "Awl/Observable.h, Awl/QuickLink.h"), M("notification walk", "Awl/Observable.h: Notify")],
     technique="event-log monitor against a subscription model, ASan+UBSan",
     note="Held on sampled histories; each delivery is checked online against the model's subscriber list. Removal of a *different* observer during a notification is outside the statement.")

prop("C07", "observable_set announces exactly the changes made",
     "Replaying the announcements of an observable_set (added, removing, clearing) onto an initially equal set always reproduces its contents, for every history of insertions, duplicate insertions, erasures by key or iterator, clears, migrations and moves. Each successful insertion is announced once after the element is present, each removal once while the element is still readable, operations that change nothing announce nothing, and destroying or replacing a non-empty set announces that it is cleared. Its queries agree with an ordinary ordered set.",
     ["histories"], "all histories of mutating operations and subscriptions, several observers at once",
     "Tests check a handful of operations with one observer; conservation between events and contents must hold after every prefix of every history.",
     ["Awl/ObservableSet.h", "Awl/Observable.h", "Awl/VectorSet.h"],
     [M("notify around set mutation", "Awl/ObservableSet.h: insert/emplace/erase/clear/migrate/operator=/destructor")],
     technique="conservation monitor: event log replayed into a model set after every operation, ASan+UBSan",
     note="Held on sampled histories; every event is checked online (presence of the element at the time of the announcement).")

prop("C08", "A mirror set always equals its source",
     "After a mirror reflects a source set, at every later moment it contains exactly the source's elements, in its own comparator's order, whatever is inserted, erased, cleared or migrated in the source, for chains of mirrors and several mirrors of one source. When a source is destroyed the mirror becomes empty and stays usable; destroying or moving a mirror never disturbs the source. Observers of the mirror see exactly its changes.",
     ["histories"], "all source histories, mirror chains, mirror comparators and lifetimes",
     "Tests mirror one set with a short script; the equality must hold after every operation and through moves and destruction orders.",
     ["Awl/MirrorSet.h", "Awl/ObservableSet.h"],
     [M("event handlers applying source changes", "Awl/MirrorSet.h: OnAdded/OnRemoving/OnClearing, reflect")],
     technique="state-equality monitor source vs mirrors after every operation, ASan+UBSan",
     note="Held on sampled histories with chains up to depth 3.")

prop("C09", "foreign_set groups the source by foreign key exactly",
     "A foreign set built over a source set always contains, for each foreign key present in the source, a group holding exactly the source elements with that key and its primary keys in order, and no empty groups. This holds after every insertion, erasure and clear of the source and for sources already populated when it was attached. Observers of the foreign set see groups announced exactly as they appear and disappear.",
     ["histories"], "all source histories over all distributions of foreign keys",
     "Tests insert and erase a few hand-picked rows; grouping must be conserved through every history, including emptying and re-creating a group.",
     ["Awl/ForeignSet.h", "Awl/ObservableSet.h"],
     [M("group creation/removal on source events", "Awl/ForeignSet.h: OnAdded/OnRemoving/OnClearing")],
     technique="differential monitor (std::map grouping model) after every operation, ASan+UBSan",
     note="Held on sampled histories.")

prop("C10", "object_pool hands out each object to one owner at a time",
     "An object obtained from the pool has exactly one owner group until its last reference is dropped; it is then finalized exactly once and only afterwards can be handed out again. Objects returned to the pool are reused before new ones are made, nothing is destroyed while referenced, and every object ever made is destroyed exactly once, when the pool is cleared or destroyed after its last reference is gone. Objects added to the pool by the user obey the same rules, and so do objects obtained or dropped while another one is being finalized.",
     ["histories"], "all histories of make, copy, drop, add, clear and pool destruction, in any order that keeps the pool alive while its objects are referenced",
     "Tests make and drop one or two objects; reuse/ownership errors need interleaved lifetimes and finalizers that use the pool.",
     ["Awl/ObjectPool.h", "Awl/PooledObject.h"],
     [M("shared_ptr deleter returning to the free list", "Awl/ObjectPool.h"), M("finalize on return", "Awl/PooledObject.h")],
     technique="ownership ledger monitor (live/free/destroyed automaton per object), ASan+UBSan+LSan",
     note="Held on sampled single-threaded histories; the pool makes no thread-safety promise.")

prop("C11", "UpdateQueue delivers every posted call exactly once, in order",
     "Every call posted to the queue from any number of threads is executed exactly once by the consumer, with the arguments it was posted with, and calls of one producer run in the order they were posted. No call is lost, duplicated, torn or executed before it was posted, however producers and the consumer interleave. Posting concurrently with processing has no data race, never waits for a running call, and every captured argument is eventually destroyed exactly once, also when copying or running a call throws or pending calls are cleared.",
     ["schedules", "histories"], "all interleavings of producers and consumer, batch sizes and reuse of message slots",
     "The unit test runs one scripted schedule; message recycling makes loss or duplication depend on the interleaving and on earlier batches.",
     ["Awl/UpdateQueue.h"],
     [M("mutex-protected pending list swapped by the consumer, recycled messages", "Awl/UpdateQueue.h")],
     technique="exactly-once/FIFO offline checker over producer/consumer logs with unique ids, TSan and ASan builds, injected delays",
     note="Held on the schedules the stress produced; the number of distinct producer interleavings observed is reported in the evidence.")

prop("C12", "Cancellable sleeps and the watchdog obey time and cancellation",
     "A cancellable sleep returns normally only after the requested time has passed, and reports cancellation promptly whenever stop was requested before or during the sleep, whichever instant the request arrives. A watchdog calls its handler exactly once, when its timeout elapses while it exists and never earlier, stops its token then or as soon as the user's token is stopped, and can be destroyed at any moment without waiting for its timeout, after which the handler never runs. Neither has a data race or leaves a thread behind.",
     ["schedules"], "all instants of the stop request relative to the sleeper entering or leaving its wait",
     "Tests stop a sleeper once after a comfortable delay; a lost wake-up needs the request to land inside a window of a few instructions.",
     ["Awl/Sleep.h", "Awl/WatchDog.h"],
     [M("stop callback + condition variable", "Awl/Sleep.h: sleep_for"), M("watchdog thread", "Awl/WatchDog.h")],
     technique="schedule stress with injected delays around condition-variable and stop-token operations, bounded-progress monitor, TSan",
     note="Held on the schedules explored; promptness is decided on bounded progress with generous watchdog times re-run before reporting.")

prop("C13", "stop_token: a stop request is seen once, by everyone",
     "Among any number of concurrent stop requests on one stop state exactly one succeeds, and from then on every associated token reports that stop was requested. Every registered callback runs exactly once if stop is requested and never after its deregistration has returned; deregistration waits for a callback running on another thread and does not deadlock from inside the callback itself, which may also destroy its own registration. Tokens report whether a stop is still possible, and equality, copying, moving and swapping follow the identity of the stop state.",
     ["schedules", "histories"], "all interleavings of request_stop, callback registration and deregistration, token copies and source destruction",
     "Tests run a few schedules with comfortable sleeps; the register/deregister/execute races are windows of a few instructions.",
     ["Extras/JThread/JThreadExtras/stop_token.hpp"],
     [M("stop-state atomics, callback list lock, executing-thread handshake", "Extras/JThread/JThreadExtras/stop_token.hpp")],
     technique="callback-once/ordering automaton over stress histories, TSan and ASan builds, injected delays in callbacks",
     note="Held on the schedules explored; sequential token algebra is checked against a model over random histories.")

prop("C14", "jthread and interruptible waits always join and never miss a stop",
     "Destroying, move-assigning or stopping a joinable thread object requests stop and waits for the thread to end, so no thread outlives its owner unless it was detached; callables that accept a stop token receive one linked to that owner. An interruptible wait returns with its predicate's value, returns promptly when stop is requested at any moment, never misses a notification and always returns with the lock held. Timed waits additionally end at their deadline and not earlier unless the predicate holds or stop was requested.",
     ["schedules"], "all instants of stop, notification, timeout and owner destruction relative to the waiter",
     "Tests use fixed sleeps, so the windows between checking the predicate, registering for stop and blocking are never hit.",
     ["Extras/JThread/JThreadExtras/jthread.hpp", "Extras/JThread/JThreadExtras/condition_variable_any2.hpp"],
     [M("join on destruction / move assignment", "Extras/JThread/JThreadExtras/jthread.hpp"), M("stop callback + internal mutex in wait", "Extras/JThread/JThreadExtras/condition_variable_any2.hpp")],
     technique="schedule stress with delays injected in user lock/predicate, bounded-progress and lock-held monitors, TSan",
     note="Held on the schedules explored.")

prop("C15", "Hashed streams return exactly the bytes written, for any chunking",
     "Whatever sequence of writes of whatever sizes is made through a hashing output stream, reading it back with any other sequence of read sizes yields exactly the same bytes, then a clean end of stream. This holds for every block size, hash algorithm and total length, including empty data and data that ends exactly on a block boundary. The stored form is the data in blocks, each followed by its hash, and does not depend on how the writes were split; a failed write of a block is reported, nothing is written after it and the process goes on.",
     ["inputs", "configurations"], "all byte sequences, write and read chunkings, block sizes and hash algorithms",
     "Tests use a few sizes; buffer-boundary errors depend on the relation between chunk, block and hash sizes.",
     ["Awl/Io/HashStream.h", "Awl/Io/BufferedStream.h", "Awl/Io/VectorStream.h", "Awl/Io/StdStream.h", "Awl/Io/SequentialStream.h"],
     [M("block buffering and per-block hash", "Awl/Io/HashStream.h: Write/Flush/Read")],
     technique="round-trip monitor over random and boundary chunkings with an independent byte ledger, ASan+UBSan",
     note="Held on sampled inputs with boundary-biased sizes; short-reading underlying streams are included.")

prop("C16", "Corrupted or truncated hashed data is never delivered as good",
     "If stored hashed data is altered in any way by changing bytes, or is cut short inside a block, reading it reports corruption, and every byte handed to the reader before that report is identical to the byte originally written at that position. Bytes of a damaged block are not delivered after the report either. Data never altered is never reported corrupt.",
     ["inputs", "fault_sequences"], "all byte changes, multi-byte and burst damage and truncation points inside blocks, for all block sizes and read chunkings",
     "The test flips a few bytes in one layout; detection must hold for every position, including hash bytes and the last, partial block.",
     ["Awl/Io/HashStream.h", "Awl/Crypto/Crc64.h", "Awl/Crypto/IntHash.h", "Awl/Crypto/BasicHash.h", "Awl/Io/HashingSerializable.h"],
     [M("verify the block hash before releasing block bytes", "Awl/Io/HashStream.h: HashInputStream")],
     technique="exhaustive single-fault enumeration (every byte, every truncation point) + random multi-byte damage, prefix-integrity monitor",
     level="fault_enumeration",
     note="All single-byte changes and truncation points of each generated stream are enumerated; streams and multi-byte damage are sampled. Damage the hash itself cannot see (a collision, decided by the reference hash) and the exchange or removal of whole intact blocks are not claimed.")

prop("C17", "Hashes are functions of the bytes alone and match their definition",
     "Each hash algorithm returns the same value for the same bytes and seed on every call, copy, platform-independent iterator type and buffer alignment, and the CRC-64 value equals the mathematical definition of its polynomial for every input. Hashing through the integer and fixed-size wrappers preserves the underlying value byte for byte in a fixed byte order. Single-bit differences between inputs of equal length change the CRC.",
     ["inputs"], "all byte sequences, lengths, seeds, alignments and iterator types",
     "Tests compare a few known vectors; a single wrong table entry is visible only for inputs that index it.",
     ["Awl/Crypto/Crc64.h", "Awl/Crypto/IntHash.h", "Awl/Crypto/FixedHash.h", "Awl/Crypto/BasicHash.h"],
     [M("table-driven CRC", "Awl/Crypto/Crc64.h"), M("value wrapping", "Awl/Crypto/IntHash.h, Awl/Crypto/FixedHash.h")],
     technique="differential monitor against a bit-serial reference implementation, UBSan+ASan, every table entry exercised",
     note="Held on sampled inputs that provably index every table entry (reported in evidence). OpenSSL hashes are not built here and not claimed.")

prop("C18", "Plain serialization round-trips every supported value",
     "Writing any supported value and reading it back yields an equal value and consumes exactly the bytes written, for all arithmetic types, enums, strings, containers, maps, optionals, variants, smart pointers, tuples, reflected structures, bitmaps, times and decimals, nested arbitrarily. The measured length equals the bytes really written. The encoding is deterministic and does not depend on the stream it is written to. Reading replaces whatever the target held before; what is the target's own, the order and hash function of a container and the observers of a set, stays and the observers see the change.",
     ["inputs"], "all values of all supported types and nestings",
     "Tests round-trip a handful of literals; size, sign and boundary cases per type are not sampled.",
     ["Awl/Io/ReadWrite.h", "Awl/Io/Rw", "Awl/Io/PlainSerializable.h", "Awl/Io/PlainReader.h", "Awl/Io/MeasureStream.h", "Awl/Io/VectorStream.h", "Awl/Io/BasicReader.h", "Awl/Io/Writer.h"],
     [M("per-type Read/Write overloads", "Awl/Io/Rw/*.h"), M("length measuring stream", "Awl/Io/MeasureStream.h")],
     technique="round-trip + length + re-encoding monitor over generated values with boundary bias, ASan+UBSan",
     note="Held on generated values of a fixed catalogue of nested types.")

prop("C19", "Malformed input is rejected with a documented exception only",
     "Deserializing arbitrary or damaged bytes either succeeds or fails with one of the library's I/O exceptions. It never crashes, hangs, reads or writes outside its buffers, executes undefined behaviour, or allocates memory out of proportion to the configured limit. This holds for plain values, versioned values with their embedded type information, headers and hashed streams.",
     ["inputs"], "all byte sequences, in particular every single-byte change and truncation of valid encodings",
     "Tests read valid data and one or two corrupt cases; hostile lengths, indices and type tables are never generated.",
     ["Awl/Io/ReadWrite.h", "Awl/Io/Rw", "Awl/Io/Reader.h", "Awl/Io/BasicReader.h", "Awl/Io/PrototypeContainer.h", "Awl/Io/VersionTolerantSerializable.h", "Awl/Io/IoException.h"],
     [M("range checks while reading", "Awl/Io/Reader.h, Awl/Io/Rw/*.h"), M("length limit in the serialization context", "Awl/Io/SerializationContext.h")],
     technique="structure-aware mutation fuzzing (all single-byte faults + truncations + random) with allocation-cap monitor, ASan+UBSan",
     note="Held on the mutated inputs explored.")

prop("C20", "Versioned data survives schema evolution",
     "Data written with one version of a structure and read with another preserves every field that both versions share, matched by name (through declared renames of fields and types), for any reordering, addition or removal of fields at any nesting depth, in containers, variants and optional values. Fields that exist only in the newer version keep the value they had before reading; fields that exist only in the older one are skipped exactly, if their types are declared, so data that follows is unaffected, or reported if deletion is not allowed. A field whose type changed to one of another stored form is refused, never misread. The same holds when several versions are read one after another and for data written by the same version.",
     ["inputs", "configurations"], "all values of old and new structures over field additions, deletions, renames, reorderings and nesting",
     "Tests convert one V1/V2 pair with fixed values; skipping must be exact for every value of every removed field type.",
     ["Awl/Io/Reader.h", "Awl/Io/Writer.h", "Awl/Io/Vts.h", "Awl/Io/FieldMap.h", "Awl/Io/PrototypeContainer.h", "Awl/Prototype.h", "Awl/Io/TypeIndex.h", "Awl/Mp"],
     [M("prototype tables and name matching", "Awl/Prototype.h, Awl/Io/Reader.h"), M("field skipping", "Awl/Io/Reader.h: SkipField/SkipStruct")],
     technique="evolution matrix monitor: generated values of version families, expected result computed by an independent field-name model",
     note="The families of structure versions are a fixed catalogue compiled into the harness; values are sampled.")

prop("C21", "A failed load leaves the value as it was and wrong headers are refused",
     "A load that fails for any reason in atomic mode (bad header, wrong format or version, corruption, truncation, read error at any point) throws and leaves the target value exactly as it was before. Data written with a different format name or a newer version is refused with the matching exception and data with the right header is accepted. A successful load replaces the target value with the stored one.",
     ["inputs", "fault_sequences"], "all failure points of the input stream and all header mismatches",
     "Tests check one bad header; the unchanged-on-failure guarantee ranges over every byte at which reading may fail.",
     ["Awl/Io/HeaderedSerializable.h", "Awl/Io/VersionTolerantSerializable.h", "Awl/Io/HashingSerializable.h", "Awl/Io/EuphoricallySerializable.h", "Awl/Io/PlainSerializable.h"],
     [M("read into a temporary then swap (atomic)", "Awl/Io/VersionTolerantSerializable.h"), M("header check", "Awl/Io/HeaderedSerializable.h")],
     technique="enumerated read-fault/truncation/corruption points with before/after value monitor, ASan+UBSan",
     level="fault_enumeration",
     note="Every truncation/fault byte offset of each generated encoding is enumerated.")

prop("C22", "AtomicStorage survives a crash at any instant",
     "When the process, or the machine with its unsynced writes lost, reordered or torn, stops at any instant while AtomicStorage saves a value, a later load returns the complete last saved value or the complete value of a save that was attempted since, never a mixture, and once a first save has succeeded never an error or nothing. After a save has returned, a later load returns exactly that value. This also holds when an earlier save failed and was retried, when a crash hits the recovery itself, and across repeated crash-and-recover cycles, for a process that loads an existing store before it saves to it.",
     ["crash_points", "histories", "fault_sequences"], "every point between and inside file operations of a save, every subset of not-yet-synced writes, over histories of saves, failed saves and recoveries",
     "Tests save and load without crashing; the guarantee is about states that exist only between two system calls.",
     ["Awl/Io/AtomicStorage.cpp", "Awl/Io/AtomicStorage.h", "Awl/Io/HashingSerializable.h", "Platforms/Posix/Awl/Io/NativeStream.h"],
     [M("backup file written and flushed before the master is overwritten, cleared after", "Awl/Io/AtomicStorage.cpp: Save/Write/ClearBackup"), M("load falls back to the other file", "Awl/Io/AtomicStorage.cpp: Load")],
     technique="recorded file-operation log, enumerated crash states (prefix, torn and reordered unsynced writes), recovery oracle on the real loader",
     level="fault_enumeration",
     note="Crash model: operations since the last fsync of a file may be applied in any prefix/subset, torn, zero-filled; fsync is a barrier per file. Directory metadata of the first creation is assumed durable.")

prop("C23", "A failed save is reported and never destroys the saved value",
     "When any file operation of a save fails (no space, I/O error, short write, failed sync), AtomicStorage's save throws and OptionalStorage's logs a warning, never success in silence or the end of the process. The last saved value, or a value of a save attempted since, remains loadable afterwards, from the same storage object and from a new one, however often the fault repeats. Once the fault goes away a further save succeeds and is what is loaded. A fault during a load never costs the stored value. All this holds for a process that loads an existing store before it saves to it; a storage that could not be opened behaves as an empty one or throws.",
     ["fault_sequences"], "every file operation of every save as the failing one, single and repeated faults, all error kinds",
     "Tests never inject an I/O fault.",
     ["Awl/Io/AtomicStorage.cpp", "Awl/Io/HashStream.h", "Awl/Io/HashingSerializable.h", "Platforms/Posix/Awl/Io/NativeStream.h", "Awl/Io/OptionalStorage.cpp"],
     [M("exception propagation from native streams", "Platforms/Posix/Awl/Io/NativeStream.h"), M("backup/master protocol", "Awl/Io/AtomicStorage.cpp")],
     technique="enumerated syscall fault injection (k-th operation, errno, short count) with recovery oracle",
     level="fault_enumeration",
     note="All single fault positions of each scripted save and pairs of faults over consecutive saves are enumerated.")

prop("C24", "Optional and persistent objects restore exactly what was stored",
     "Saving a persistent or optional object and loading it later, from the same or another object, restores exactly the last saved value, and load reports by its result that there is none when nothing was saved or the store was removed. Saving a shorter value after a longer one, an empty value, or repeating open, save, load, close and remove in any order leaves no residue and no open files. A storage that is moved, into a new one or over one in use, takes its open files with it and leaves its source closed. Loading from a missing or damaged store, one with another format name or version, or one whose types do not fit, reports failure by the result and leaves the object's value as it was; an intact backup file is used instead of a damaged main file.",
     ["histories", "inputs"], "all histories of open, save, load, close, remove, copy and damage over all values",
     "Tests store one value and read it once.",
     ["Awl/Io/OptionalStorage.cpp", "Awl/Io/OptionalStorage.h", "Awl/Io/PersistentObject.cpp", "Awl/Io/PersistentObject.h", "Awl/Io/AtomicStorage.cpp", "Awl/Io/HeaderedSerializable.h"],
     [M("truncate and overwrite, backup first", "Awl/Io/AtomicStorage.cpp"), M("value kept on failure", "Awl/Io/VersionTolerantSerializable.h, Awl/Io/PersistentObject.cpp")],
     technique="history monitor against an optional-value model on real files in a scratch directory, ASan+UBSan",
     note="Held on sampled histories.")

prop("C25", "Native streams act on files exactly as asked and own their descriptors",
     "Every read, write, seek, move, truncate and length query on a native stream has exactly the effect on the file that the same operations have on an array of bytes with a position, and opening modes create, keep, truncate or refuse the file as documented. Each descriptor is closed exactly once, when its owner is destroyed, closed or overwritten by a move, never while still owned, and moved-from streams own nothing. Errors from the system are raised as exceptions that carry the error.",
     ["histories", "inputs", "fault_sequences"], "all operation histories over files, open modes, handle moves and system-call errors",
     "Tests use streams only incidentally and never look at descriptors.",
     ["Platforms/Posix/Awl/Io/NativeStream.h", "Platforms/Posix/Awl/Io/UniqueHandle.h", "Platforms/Posix/Awl/Io/SharedHandle.h", "Platforms/Posix/Awl/Io/Handle.h", "Platforms/Posix/Awl/Io/NativeException.h"],
     [M("thin wrappers over read/write/lseek/ftruncate/fsync", "Platforms/Posix/Awl/Io/NativeStream.h"), M("unique/shared ownership", "Platforms/Posix/Awl/Io/UniqueHandle.h")],
     technique="differential monitor (byte-array file model) + descriptor ledger via interposed open/close, ASan+UBSan",
     note="Held on sampled histories; descriptor conservation is also checked against /proc/self/fd of the harness's own process.")

prop("C26", "Decimal arithmetic is exact",
     "Sums, differences, products and negations of decimals whose results are representable equal the results of exact rational arithmetic, a sum or difference having the larger of the operands' digit counts and a product their sum, and ordering and equality depend only on the numeric value, not on how many digits are stored or on the sign of a zero. Integers convert in exactly and out truncated toward zero. Mixed operations with floating-point numbers, and division, act on the number cut to the decimal's digits, respectively on the closest double, as documented. Compound assignment agrees with the plain operations.",
     ["inputs"], "all operand values, signs, digit counts and both backing integer widths",
     "Tests compute a few dozen literals; carries, sign combinations and digit alignment over the whole range are not sampled.",
     ["Awl/Decimal.h", "Awl/DecimalData.h", "Awl/DecimalConstants.h"],
     [M("mantissa/exponent normalisation", "Awl/Decimal.h")],
     technique="differential monitor against exact big-integer rationals, boundary-biased operands, UBSan+ASan",
     note="Held on sampled operands from all sign/digit/magnitude classes.")

prop("C27", "Decimal text, rounding and scaling are faithful",
     "Parsing a decimal's printed form gives back an equal decimal, printing shows exactly its value with the digits it stores, and parsing accepts exactly well-formed numbers (an optional sign, digits, and optionally a point with digits, at least one digit in total) that are representable, whose value it reproduces exactly, and rejects everything else with an exception. Rounding, floor, ceiling, truncation and rescaling return the value nearest in the stated direction with the stated number of digits. Conversion to and from floating point is within rounding of the exact value, and durations convert to the exact nanosecond.",
     ["inputs"], "all decimal values, digit counts, and input strings",
     "Tests parse and print a few literals.",
     ["Awl/Decimal.h", "Awl/DecimalTime.h"],
     [M("from_string/to_string", "Awl/Decimal.h"), M("rescale/round/floor/ceil/truncate", "Awl/Decimal.h")],
     technique="round-trip and exact big-integer oracle over generated values and strings, UBSan+ASan",
     note="Held on sampled values and mutated strings.")

prop("C28", "Decimal overflow is never silent",
     "When the exact result of constructing, parsing, adding, subtracting, multiplying or rescaling decimals does not fit the representation, the operation throws instead of returning a wrong value, and the operands keep their values. Results that fit are returned and not refused.",
     ["inputs"], "all operand pairs near and beyond the representable range",
     "Tests check a couple of overflow literals.",
     ["Awl/Decimal.h", "Awl/DecimalData.h"],
     [M("range checks on mantissa and exponent", "Awl/Decimal.h")],
     technique="exact big-integer oracle at and beyond range boundaries, UBSan+ASan",
     note="Held on sampled operands concentrated around the limits of both widths.")

prop("C29", "Comparers impose one consistent order",
     "Every comparer built by the library (by member, by key getter, composite, transparent composite, reverse, pointer-dereferencing, tuple-based) is a strict weak order over all values, and equals the order defined by its parts: lexicographic for composites, reversed for reverse. Comparing an object with a key, a key with an object, and two objects always agree. Equality and ordering operators generated for reflected structures agree with comparing their members in declaration order.",
     ["inputs"], "all values, ties at every level, and all combinations of key and object operands",
     "Tests compare a few fixed pairs; order axioms quantify over pairs and triples.",
     ["Awl/KeyCompare.h", "Awl/CompositeCompare.h", "Awl/TransparentCompositeCompare.h", "Awl/ReverseCompare.h", "Awl/Getters.h", "Awl/Tuplizable.h", "Awl/TupleHelpers.h"],
     [M("key extraction and composition", "Awl/KeyCompare.h, Awl/CompositeCompare.h, Awl/TransparentCompositeCompare.h")],
     technique="axiom monitor over exhaustive pairs/triples of a small tie-rich value set plus random values",
     note="Pairs and triples of the small domain are exhaustive; larger domains sampled.")

prop("C30", "Bit sets over enums and enum names are exact",
     "A bit map indexed by an enum holds exactly the flags that were set: construction from a list, setting, testing and assigning flags, the bitwise operators with values and with other maps, comparison, counting, any/all/none, and serialization agree with a mathematical set for every combination of flags and any number of enumerators. Enumerator names of sequential enums map to their values and back without loss, however the declaration is formatted, and case-insensitively when asked. Values outside the enum and unknown names are refused with an exception.",
     ["inputs", "histories"], "all flag combinations and operation histories, all enumerators and non-enumerators",
     "Tests set a few bits.",
     ["Awl/BitMap.h", "Awl/EnumTraits.h", "Awl/Io/Rw/BitMapReadWrite.h", "Awl/Io/Rw/EnumReadWrite.h"],
     [M("bit operations", "Awl/BitMap.h"), M("enum string tables", "Awl/EnumTraits.h")],
     technique="exhaustive/differential monitor against a vector-of-flags model, all subsets of small enums, UBSan+ASan",
     note="All subsets of small enums are enumerated; larger ones sampled.")

prop("C31", "Generators yield exactly their sequence and release their state",
     "Iterating a generator (synchronous, asynchronous or mapped by a function) yields exactly the values its body yields, in order, each once, and the body has run no further than to the value that was taken; then the iteration ends. An exception in the body reaches the consumer at that point and iteration ends, whichever coroutine the consumer is. Abandoning, moving or destroying a generator at any point destroys everything its body holds exactly once. Values are given by reference: they stay valid until the next step, and what the consumer stores in them the body sees.",
     ["programs", "histories"], "all generator bodies, abandonment points, exception points and moves",
     "Tests run one or two bodies to completion.",
     ["Awl/Coro/Generator.h", "Awl/Coro/AsyncGenerator.h"],
     [M("promise/handle ownership and resume protocol", "Awl/Coro/Generator.h, Awl/Coro/AsyncGenerator.h")],
     technique="frame-lifetime ledger + sequence monitor over generated bodies, every abandonment/throw point enumerated, ASan+UBSan",
     note="Bodies are parameterised interpreters over random scripts; abandonment and throw points are enumerated per script.")

prop("C32", "Coroutine tasks deliver their result or exception exactly once",
     "Awaiting a task gives exactly the value it returned or rethrows the exception it ended with, and the awaiting coroutine continues exactly once, after the awaited one finished, for any nesting, completion order, and whether or not the task had finished before it was awaited. Destroying a task with the tasks it owns, or moving it, at any suspension point releases its state exactly once and never resumes it afterwards; a released update task goes on and destroys itself when it finishes. A coroutine that waits for a timer is resumed once, not before its time, and before those that are due later.",
     ["programs", "histories"], "all task trees, completion orders, abandonment and exception points",
     "Tests run a timer and a short chain.",
     ["Awl/Coro/ProcessTask.h", "Awl/Coro/UpdateTask.h", "Awl/Testing/TimeQueue.h"],
     [M("continuation hand-off in final suspend", "Awl/Coro/ProcessTask.h, Awl/Coro/UpdateTask.h")],
     technique="event-order monitor + frame-lifetime ledger over generated task trees and manual schedulers, ASan+UBSan",
     note="Held on generated trees and resume orders.")

prop("C33", "Ownership helpers run their cleanup exactly once",
     "A scope guard runs its action exactly once when its owner ends or is overwritten, unless it was released or made disengaged, and moving a guard moves that duty. Owning pointers free each object exactly once when overwritten, reset, moved or destroyed, and not when released. Singletons exist at most once, are shared by all users, are created on first use (a static one by one thread even if several use it first at once) and destroyed after the last user; the on-demand one is made again after that and the shared one is not; a failed creation is tried again. An aggregator calls its function exactly when all arguments have been set, with the values set last, unless cancelled.",
     ["histories", "schedules"], "all histories of engage, release, move, reset and destruction, and concurrent first uses of singletons",
     "Tests run each helper once.",
     ["Awl/ScopeGuard.h", "Awl/UniquePtr.h", "Awl/SharedSingleton.h", "Awl/StaticSingleton.h", "Awl/Aggregator.h"],
     [M("engaged flag", "Awl/ScopeGuard.h"), M("reference counted singleton", "Awl/SharedSingleton.h")],
     technique="ledger monitor over move/reset histories, ASan+UBSan+TSan",
     note="Held on sampled histories and schedules.")

prop("C34", "Text and number helpers convert and format without loss",
     "Converting text (without embedded zero symbols) between narrow and wide characters and back returns the same text in the current locale, and text that cannot be represented is reported by an exception. The string formatter outputs exactly its arguments in order with their stream formatting, a separator is output between elements and not before the first. Case-insensitive comparison is a consistent order and equality that treats exactly the two cases of a letter as equal. Fixed strings concatenate, compare and expose exactly their characters; 128-bit integers print all their digits (the unsigned ones with the stream's width, fill and adjustment); durations print as hours, minutes, seconds and fraction; a time made of local calendar fields (months counted from zero, daylight saving included) has those fields. Integer ranges, rounding, clamping, sign, byte arrays (most significant byte first) and the other small numeric helpers give the mathematical result. Nothing reads or writes outside the given text, whatever its length.",
     ["inputs", "configurations"], "all strings, lengths, locales, time zones, numbers and durations",
     "Tests use a few literals.",
     ["Awl/String.h", "Awl/StringFormat.h", "Awl/LogString.h", "Awl/FixedString.h", "Awl/Separator.h", "Awl/Time.h", "Awl/StopWatch.h", "Awl/IntRange.h", "Awl/RangeUtil.h", "Awl/Math.h", "Awl/Int2Array.h", "Awl/Combinator.h"],
     [M("conversions and formatting", "Awl/String.h, Awl/StringFormat.h, Awl/Time.h")],
     technique="differential monitor against reference conversions, ASan+UBSan",
     note="Held on generated strings and numbers.")

prop("C35", "The test framework runs what was asked and reports what happened",
     "The tests selected by the names given to --run, or else by the --filter expression that must match the whole name (by default those registered as tests), run in the order of their names, each once or as many times as --loop says, until the first one that fails; no other test runs, and --list prints the names and their number and runs nothing. The result and the printed verdict say success exactly when everything selected has passed; the message of a failed test or assertion, an unknown or twice registered name, a malformed command line, expression or output mode are reported. Of the tests' own output exactly the failed round's is shown, or everything or nothing as --output says. An attribute a test reads equals the value given on the command line, or its default when none was given or it is not a value of its type, and options that nothing read are reported. A test that runs longer than --timeout, or whose run is cancelled, is asked to stop and no other is. An assertion fails exactly when its condition does not hold.",
     ["inputs", "programs", "configurations"], "all command lines, filters, attribute types and sets of passing and failing tests",
     "Its own tests run under it and cannot see what it fails to run or report.",
     ["Awl/Testing", "Awl/WatchDog.h", "Awl/StdConsole.h"],
     [M("test registry", "Awl/Testing/TestChain.h"), M("command line parsing", "Awl/Testing/CommandLineProvider.cpp, Awl/Testing/ScalarFormatter.h"), M("runner", "Awl/Testing/TestMap.cpp, Awl/Testing/TestConsole.cpp")],
     technique="run-log monitor: generated registries, command lines and outcomes against an independent model of selection, output and result, ASan+UBSan",
     note="Held on sampled registries, command lines and outcomes; options of 2 and more letters; failures are TestExceptions.")

prop("C36", "Reflection, tuples, hashing and type descriptions treat structures memberwise",
     "The names exposed for a reflected structure are exactly its declared members, in the order of the declaration and regardless of how the macro is formatted; a name is found at its index and any other text is not found. Its tuples refer to those members themselves. Memberwise equality and ordering equal the lexicographic comparison of the members; equal structures hash equally, and the hash of a structure, tuple or vector depends on every member or element. Iterating over, transforming, casting and indexing a tuple visits each element exactly once, in order, with its own index and type. Type descriptions follow the documented grammar (element types spelled by size, signed and unsigned alike; every structure is 'struct'), their hashes are equal exactly if the descriptions are, the collected types of a structure are all the types it is made of, and a prototype lists the names and types of its fields, equal to another only if all of them are.",
     ["inputs", "programs"], "all structure values and the structure shapes and types in the catalogue",
     "Tests reflect one or two structures and compare a handful of values.",
     ["Awl/Reflection.h", "Awl/TupleHelpers.h", "Awl/Tuplizable.h", "Awl/Hashable.h", "Awl/Getters.h", "Awl/Prototype.h", "Awl/FunctionTraits.h", "Awl/TypeTraits.h", "Awl/Mp", "Awl/Io/TypeIndex.h", "Awl/Io/PrototypeContainer.h"],
     [M("member list splitting and tie-based access", "Awl/Reflection.h, Awl/Tuplizable.h"), M("hash combination", "Awl/Hashable.h"), M("compile-time type names and collections", "Awl/Mp")],
     technique="differential monitor of the real templates against hand-written ties and descriptions over generated values, UBSan+ASan",
     note="Shapes and types are a fixed catalogue; values sampled. That a hash depends on a member is judged over many changes of it, never over one pair.")

prop("C37", "Static registries contain every registered entry",
     "Every entry registered in a static chain or factory, from any translation unit, in any link order and at any time (before main, while it runs, and as seen by other static objects during initialisation), is found by its name and appears exactly once when the chain is enumerated, and nothing else does; entries of the same name are all enumerated and one of them is found. A name is compared exactly, as a whole. A factory calls exactly the function registered under that name with that signature, passing the arguments through unchanged (references stay references, movable arguments are moved, nothing is consumed when there is no such factory); an unknown name, a disabled factory or another signature ends with FactoryException, whose message names what was asked for.",
     ["programs", "configurations"], "all sets of registrations, names and link orders",
     "Tests register a few entries in one unit, in one order.",
     ["Awl/StaticChain.h", "Awl/StaticFactory.h", "Awl/StaticSingleton.h", "Awl/SingleList.h"],
     [M("self-registering links", "Awl/StaticChain.h"), M("typed factory chains", "Awl/StaticFactory.h")],
     technique="registry monitor over a program of several translation units in permuted link order plus run-time registrations compared with a model, ASan+UBSan",
     note="Three units in three link orders; names sampled around the registered ones; names and order of run-time registrations sampled.")

prop("C38", "Concurrent saving stores a consistent snapshot",
     "When a value is saved while other threads keep modifying it under the mutex given to the save, what is stored is a state the value had at an instant when that save held the mutex, and successive saves store states in order; after a save that fails, what can be loaded is a state of one of the saves since the last that succeeded. The save locks the mutex and does not hold it during any file operation, so the value can be modified meanwhile; the mutex is released whatever way the save ends, also when the value has no snapshots. The stored bytes are those a save without a mutex stores. There is no data race between saves, also of different values under different mutexes, and the modifying threads.",
     ["schedules", "fault_sequences"], "all interleavings of modifying threads and saves",
     "Tests save with a mutex but no concurrent modification.",
     ["Awl/Io/AtomicStorage.cpp", "Awl/Io/OptionalStorage.cpp", "Awl/Io/Snapshotable.h", "Awl/Io/EuphoricallySerializable.h", "Awl/Io/HashingSerializable.h", "Awl/Io/HeaderedSerializable.h", "Awl/OptionalMutex.h"],
     [M("snapshot under lock then write unlocked", "Awl/Io/AtomicStorage.cpp: Save, Awl/Io/Snapshotable.h")],
     technique="invariant-carrying value, monitored mutex (owner, state numbers) and wrapped file operations with faults under thread stress, TSan build and ASan+UBSan build",
     note="Held on the schedules explored (evidence counts modifications, saves, states and file operations).")

NA = {}

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    claimed = set(json.load(open(os.path.join(root, "tools", "claimed.json"))))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["state"]: a["state"] = p["state"]
            if p["observe"]: a["observe_at"] = p["observe"]
            a["hook_needed"] = p["hook"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": a}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    checks = []
    na = []
    for p in P:
        if p["id"] in claimed:
            checks.append({"property": p["id"],
                "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
                "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "check still under construction; not claimed yet")})
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
         "checks": checks, "not_applicable": na}
    hooks = os.path.join(root, "tools", "hooks.json")
    if os.path.exists(hooks): m["hooks"] = json.load(open(hooks))
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

main()
