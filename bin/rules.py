"""What a case is and what makes one count as distinct, per property (shown in the evidence), and what is assumed."""

RULES = {
"C01": "Random, adversarial and exhaustive operation words over a vector_set and a sorted-vector model; the whole set is compared with the model after the operation. Distinct: hash of the contents together with the history that made them.",
"C02": "Histories of insertions and removals (ascending, descending, zig-zag, all permutations of small sizes, drains, sliding windows, removals chosen by the observed depths); the depth of every element is measured by counting the elements one lookup compares. Distinct: (history, contents size, depth).",
"C03": "Copy/move/assign/swap histories over three sets with instrumented elements, allocators and comparers, and one run per throw point. Distinct: (operation, throw point, sizes and bounds of the sets).",
"C04": "Random histories and all operation words up to a length over small capacities, compared with a bounded deque; one run per throw point. Distinct: (contents, capacity, operation).",
"C05": "Random histories over several lists, all short words, moves of linked elements; every list is walked both ways after each operation. Distinct: contents of all lists and the operation.",
"C06": "Random subscribe/unsubscribe/move/destroy/notify histories with re-entrant unsubscription; every delivery is compared with the model's subscription list. Distinct: hash of the history and the subscription counts.",
"C07": "Random histories over an observable_set with several observers replaying the announcements. Distinct: hash of the history.",
"C08": "Random histories over sources, mirrors, chains of mirrors and their lifetimes, all compared with their source after each operation. Distinct: hash of the history.",
"C09": "Random histories over sources with foreign keys, compared with a std::map of groups after each operation. Distinct: hash of the history.",
"C10": "Random make/copy/drop/add/clear histories with re-entrant finalizers; an automaton per object judges every event. Distinct: hash of the history.",
"C11": "Producers and a consumer under basic-block schedule fuzzing (uniquely numbered calls, judged from the log), and sequential histories with throwing calls and copies. Distinct: the order in which the producers' calls interleaved.",
"C12": "Sleeps, stop requests at every phase (before, in the window before the wait, during it), injected spurious wake-ups, watchdogs that time out, are destroyed or cancelled. Distinct: (duration or phase, waiters, delays).",
"C13": "Stop-state algebra histories compared with a model, and races of requests, registrations and deregistrations under basic-block schedule fuzzing. Distinct: hash of the history, or the order of events in the race.",
"C14": "Thread histories, waits raced with stops, notifications and timeouts under schedule fuzzing. Distinct: (phase, waiters, wake-ups, lock handovers).",
"C15": "Data of boundary-biased lengths written in random chunks and read back in other chunks, with short reads and write faults. Distinct: hash of the stored bytes and the block size.",
"C16": "For each stored stream every byte changed and every truncation, then random multi-byte damage, judged by a reference block parser. Distinct: the damaged (or base) stream.",
"C17": "Inputs of random bytes, lengths, alignments and iterator types against a bit-serial reference; every table entry is indexed. Distinct: the hash value that was due.",
"C18": "Values of a catalogue of nested types generated with boundary bias, written, measured, read over dirty targets and re-encoded. Distinct: (type, encoding).",
"C19": "Mutated encodings (every byte changed, every truncation, lengths, indices and type tables rewritten, noise) read under an allocation monitor. Distinct: (type, input bytes).",
"C20": "Random values written with one version of a generated structure family and read with every other one; the expected value is computed field by field by name. Distinct: the stored bytes.",
"C21": "One failing read per byte offset and kind of fault of each encoding, in atomic mode, with a before/after comparison of the value. Distinct: (type, encoding, fault offset, kind).",
"C22": "Saves recorded at the level of file operations; for every operation boundary a set of crash images (unsynced writes lost, reordered, torn, zero-filled) is loaded by the real loader, and crashed again while it recovers. Distinct: (what was loaded, image of both files).",
"C23": "Every file operation of a save, load or recovery made to fail with every error or a short count, alone and repeated. Distinct: (operation, error, block size, form of the storage).",
"C24": "Random histories over persistent and optional objects in a scratch directory, stores damaged between them. Distinct: hash of the history, or (damage, sizes of both files).",
"C25": "Random histories of stream operations on real files compared with an array of bytes and a position; descriptors are counted at open and close. Distinct: hash of the history.",
"C26": "Operands of all sign, digit and magnitude classes, judged by exact rationals. Distinct: the operation and operands as text.",
"C27": "Generated and mutated texts, values and durations, judged by exact rationals. Distinct: the text or the operation and operands.",
"C28": "Operands around the limits of each representation, judged by exact rationals: fits and is exact, or throws. Distinct: the operation and operands.",
"C29": "All pairs and triples of tie-rich value sets, with objects and keys on either side. Distinct: the value set and comparer.",
"C30": "All subsets of small enums, random histories for long ones, all enumerators and neighbouring non-enumerators. Distinct: the flags.",
"C31": "Random scripts interpreted by generator bodies, with every abandonment and throw point. Distinct: (script, abandonment point, kind of end).",
"C32": "Random task trees run by a manual scheduler in random completion orders, with abandonment, moves, release and exceptions. Distinct: (tree, order, faults).",
"C33": "Random histories of the helpers; concurrent first uses. Distinct: the history as text.",
"C34": "Generated texts, numbers, formats, times and durations against reference computations, in each installed locale and several time zones. Distinct: the input.",
"C35": "Generated registries, command lines and outcomes run by the real console; output, run log and result compared with a model. Distinct: (command line, names, outcomes).",
"C36": "A catalogue of structures and types with generated values against hand-written ties and descriptions. Distinct: (shape, values).",
"C37": "Programs of several units linked in several orders and registrations while it runs, compared with a model. Distinct: (name, kind of the entry, number of entries).",
"C38": "Threads that modify values under monitored mutexes while others save them, with faults in the file operations. Distinct: (run, states stored).",
}

_COUNTS = "Iteration counts bound the exploration; nothing is claimed about inputs, histories or schedules that were not produced."
_SCHED = "Interleavings are those the operating system and the injected delays produced on this machine; a missed-progress verdict needs the same hang twice."
_FAITHFUL = "The reference model in the harness states the property; it was validated by the mutations listed in DESIGN.md."

ASSUME = {p: [_COUNTS, _FAITHFUL] for p in RULES}
for p in ("C11", "C12", "C13", "C14", "C38"): ASSUME[p].append(_SCHED)
ASSUME["C22"] += ["Crash model: writes since the last fsync of a file may be lost, applied in any order, torn or zero-filled; fsync is a barrier for its file; the directory entries of the two files are durable once they were created."]
ASSUME["C23"] += ["Faults are injected at the boundary of the C library's file functions; the file system itself keeps what succeeded."]
ASSUME["C16"] += ["Damage that keeps a block's hash (a collision, decided by the reference hash) and the exchange of whole blocks are not claimed."]
