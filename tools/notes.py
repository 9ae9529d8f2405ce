TECH, NOTE, LEVEL, NOTAPP = {}, {}, {}, {}
def t(i, tech, note, level="exploration"): TECH[i], NOTE[i], LEVEL[i] = tech, note, level
t("S01", "property-based testing: near-neighbour key pairs against prefix-freeness and order oracles", "Random search over pairs of containers; assumes bytewise key order (the engine's default comparator). One known ambiguity is excluded and reported.")
t("S02", "property-based testing: encode/decode round trip; fuzzing of the decoder in exact-size heap blocks under ASan", "Random search; decoder robustness judged by AddressSanitizer and internal consistency.")
t("S03", "property-based testing: round trip and order oracle on descriptors and integers, corruption fuzzing", "Random search with edge-biased 64-bit values.")
t("S04", "property-based testing: differential against an independent glob matcher; fuzzing under ASan", "Exact for well-formed ASCII classes; malformed patterns are only required to be safe, deterministic and independent of surrounding memory.")
t("S05", "stateful model-based testing of the expiration index", "Random operation sequences against an ordered multimap.")
t("S06", "property-based testing: published revision decoded by an independent protocol reader", "Random transactions; the tracker and formatter are the real ones.")
t("R01", "stateful model-based testing: operation sequences with reopen against an in-memory log, all read paths compared after each step", "Random histories of up to ~60 operations; every refused operation must leave all observables unchanged.")
t("R02", "stateful property-based testing with crash injection: write-ahead log cut at every recorded sync boundary or an arbitrary byte, then reopened", "Power loss is modelled as keeping at least the bytes the process had fsynced of each storage-engine log file and any prefix of the rest; torn pages inside a record are left to the engine's checksums.")
t("R03", "stateful model-based testing plus concurrent random schedules: histories of votes, leaders and terms against the one-vote-per-term invariants", "Random interleavings on real threads, not an exhaustive scheduler; one leader per term is required within one process lifetime (the leader is not persisted).")
t("R04", "stateful model-based testing of membership as a function of the log, with rollback, restart and concurrent proposals", "Histories never hold two uncommitted membership entries at once, which a leader refuses to create.")
t("R05", "property-based testing: timeouts against range and heartbeat oracle with explicit time points; settings round trip and malformed-settings fuzzing", "Timing is explicit wherever the code takes a time point; otherwise lower bounds only.")
t("M01", "stateful model-based testing: command histories on strings, hashes and sets against an in-memory reference", "Real state machine and dispatcher on a scratch database; replies decoded by an independent protocol reader, key audit after each history.")
t("M02", "stateful model-based testing: deques and locality hashes against an in-memory reference", "As M01; hint moves, fallbacks and index records are compared record by record.")
t("M03", "stateful model-based testing: versioned hashes, transactions and published revisions against a reference and a replaying subscriber", "As M01. Replaying a published empty value is ambiguous with a deletion in the published format, so the subscriber treats them alike.")
t("M04", "stateful model-based testing: lease histories under generated clock readings, direct and through the lease filter", "Clock values are generated, never wall time.")
t("M05", "property-based testing: paging walks with generated counts, patterns and concurrent-free edits against the set of elements; cursor fuzzing", "Every walk is bounded and must end. Malformed cursors must be refused or answered, never crash.")
t("M06", "stateful model-based testing: key-space commands against the reference key set, with internal records present", "As M01.")
t("M07", "property-based testing: metamorphic relation block = its commands one by one, plus concurrent readers that must never see half a block", "Concurrent part samples real thread schedules.")
t("M08", "stateful property-based testing with crash injection: applied log, write-ahead log cut at a random byte, reopen and re-apply; replica differential", "A crash keeps an arbitrary prefix of the newest storage-engine log; torn pages inside a record are left to the engine's checksums.")
t("M09", "property-based testing: invariants over every stored record after random histories", "An independent decoder of the stored records recounts everything; the code's own consistency scanner must agree.")
t("M10", "property-based testing: differential between bulk-loaded and normally written stores", "Locality fields are loaded once per field, since overwriting them needs reads, which bulk load refuses.")
t("U01", "property-based testing: generated configurations against an independent parser and validity oracle; fuzzing of configuration text", "Random search; the written form must parse back to the same configuration.")
t("U02", "stateful property-based testing on a scratch directory tree: helpers against the file system's own view", "Random trees, names, contents and modes; full disks are modelled with /dev/full.")
t("U04", "property-based testing: round trip of generated histories and corruption fuzzing under ASan", "Random search; every proper truncation of a history must be refused.")
t("U05", "property-based testing on concurrent random schedules: counters against the exact number of recorded commands", "Random interleavings on real threads pinned to generated cores.")
t("U06", "property-based testing: generated indicator lists and manifests against the worst-of oracle and reply decoding", "Modification times that differ by less than 2^31 seconds.")
t("U07", "stateful model-based testing under a generated monotonic clock, plus concurrent readers", "The process's monotonic clock is replaced by a generated one.")
t("U08", "property-based testing: generated text against independent parsers, format/parse round trips, fuzzing in exact-size heap blocks under ASan", "Random search with edge-biased numbers.")
t("U09", "stateful model-based testing of buffers and pools, plus concurrent random schedules", "Random interleavings on real threads; leaks judged by AddressSanitizer and by counting.")
t("U03", "stateful model-based testing of shard directories: create, snapshot, resilver and reset histories with injected rename failures and damaged layouts", "Crashes between individual renames are not generated; a failing rename is.")
t("N01", "property-based testing: metamorphic relation between fragmentations plus an independent strict parser as oracle; malformed-stream fuzzing under ASan with a memory limit", "Empty arguments are refused by design; numbers in unusual spellings may be refused or taken at face value.")
t("N02", "property-based testing: every reply shape encoded and decoded by an independent protocol reader", "Text in a one-line reply is compared up to its first line terminator.")
t("N03", "property-based testing: round trip of generated transactions; corruption fuzzing against an independent decoder", "Random search, lengths biased to edges.")
t("N06", "property-based testing: every name in generated spellings and near-misses against an independently written command table", "The table of documented commands is part of the oracle.")
t("N07", "property-based testing: filter and lease rewriting on generated commands and blocks against their specification", "Random search over all commands, spellings and arguments.")
t("N08", "stateful model-based testing of subscriptions and deliveries, containers modified while walked, and concurrent random schedules with exactness oracles", "Real thread schedules are sampled; patterns in the histories avoid bracket classes, which S04 covers.")
t("N04", "stateful model-based testing: pipelined sessions on a standalone node against a reference, replies matched one to one and in order", "Random histories of up to 35 steps over several connections; monitoring, blocks, packed transactions, pipelining and authentication in one session model.")
t("N05", "property-based testing: challenges and signatures against an independent implementation, login histories against a reference, command fuzzing without login", "Random search; a failed login may drop an earlier authorization.")
t("R06", "property-based testing: round trip between the real sender and the real parser, independent decoder as oracle; mutation fuzzing under ASan", "Random search; leading blanks and plus signs in numbers are left open.")
t("R07", "stateful property-based testing: progress reports and membership changes against the majority oracle, and real commit thread alone in its cluster", "Random histories; the timing part only checks facts that hold under every schedule.")
t("R08", "stateful model-based testing of leases with explicit time points; elections against simulated members answering every kind of reply", "Reads at an old leader whose followers already voted elsewhere are not excluded by the lease itself and are not claimed.")
t("R09", "stateful model-based testing of one node against a cluster which exists only on paper, and randomized cluster simulation: several real nodes on a simulated network with splits, losses, late duplicates, restarts and membership changes, their logs compared entry by entry", "Cluster histories run real threads and timers, so a failure is reported only when its replay fails again. Nodes are stopped cleanly; torn journals belong to R03. Reads at an old leader are outside.")
t("R10", "stateful model-based testing of a leader with pipelining clients under generated commits and losses of leadership, and client histories on simulated clusters", "Commit order and loss of leadership are chosen by the generator; thread schedules inside are sampled.")
t("R11", "stateful model-based testing of a real leader and replicator against generated followers (conflicting logs, lost and odd replies, resilvering, newer terms), membership commands against a reference, and the trimmer against its own fixpoint", "Followers are models, resilvered copies are opened with the real journal and data. Real threads: failures must reproduce. Followers never confirm what they did not do.")
t("U10", "stateful model-based testing: raw editing sessions on databases, journals and state machines against a reference map, contents re-read behind the editor's back", "RECOVERY_SCAN is left out: it needs an iteration mode which the installed storage engine no longer has.")
