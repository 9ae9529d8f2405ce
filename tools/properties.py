#!/usr/bin/env python3
"""Source of properties.jsonl. Run from anywhere: rewrites /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- raft
prop("R01", "The raft journal behaves as one contiguous, append-only, trimmable log",
     "After any sequence of appends, suffix removals, front trimmings, term/vote changes and close/reopen cycles, the journal holds exactly the entries a plain in-memory log would hold: contiguous indices, each with the term and command it was appended with, and nothing before the trim point or after the end. Invalid operations (gaps, terms running backwards or ahead of the current term, removing a committed entry, trimming uncommitted or all entries) are refused and change nothing. Fetch, term lookup, batch fetch, glob-filtered scan, iteration and entry matching all describe that same log.",
     ["histories", "inputs"],
     "All operation sequences over the journal API, all entry contents (binary arguments, empty arguments, many arguments), all reopen points.",
     "The raft-journal test drives one fixed script of a dozen operations; it never varies the order of trimming, removal and reopen, and it is not even among the tests that build here.",
     ["src/raft/RaftJournal.cc", "src/raft/RaftJournal.hh", "src/raft/RaftCommon.hh", "src/utils/IntToBinaryString.hh"],
     [("append validation and batch commit", "RaftJournal::appendNoLock"), ("suffix removal", "RaftJournal::removeEntries"), ("prefix trimming", "RaftJournal::trimUntil"), ("entry serialization", "RaftEntry")],
     [("log size / log start", "bounds of the log", "RAFT_LOG_SIZE, RAFT_LOG_START keys")],
     ["journal API results", "journal reopened from disk", "raw key iteration"])
prop("R02", "Acknowledged raft state survives a crash at any point",
     "If the process or machine dies at any moment, the reopened journal is a consistent prefix of what was written: log bounds agree with the entries present, no operation is half-applied, and every term, vote and membership change acknowledged under the default policy (and every entry acknowledged under the always-sync policy) is present. The configured fsync policy itself survives restarts.",
     ["crash_points", "histories"],
     "All operation histories, all fsync policies, all positions at which the on-disk state is cut (process kill or loss of unsynced data).",
     "The only durability test (sudo/poweroff) needs a VM that is powered off; nothing in the suite cuts the write-ahead log or drops unsynced data.",
     ["src/raft/RaftJournal.cc", "src/utils/FsyncThread.cc"],
     [("sync decision", "RaftJournal::shouldSync / determineWriteOptions / commitBatch"), ("atomic write batches", "RaftJournal::commitBatch"), ("persisted policy", "RaftJournal::setFsyncPolicy")],
     [("fsync policy", "which writes must reach the disk", "RAFT_FSYNC_POLICY key")],
     ["journal reopened from a cut copy of its directory"])
prop("R03", "One vote and one leader per term, and terms never go backwards",
     "For every interleaving of term observations, votes, election attempts, step-downs and restarts, a node never votes for two different candidates in one term, never recognises two different leaders in one term while it runs, never goes back to an earlier term, and becomes leader only for a term in which it is a candidate. Its published snapshot of term, leader, vote and status is always one that existed, and term and vote are identical after a restart.",
     ["histories", "schedules"],
     "All sequences and thread interleavings of observed(), grantVote(), becomeCandidate(), ascend(), dropOut(), wait() and restart.",
     "Raft_State.T1 runs one hand-written single-threaded sequence.",
     ["src/raft/RaftState.cc", "src/raft/RaftState.hh", "src/raft/RaftJournal.cc"],
     [("term change", "RaftState::declareEvent / observed"), ("vote", "RaftState::grantVote"), ("election", "RaftState::becomeCandidate, ascend"), ("persistence", "RaftJournal::setCurrentTerm")],
     [("currentTerm, votedFor, leader, status", "raft state", "RaftState, RaftJournal")],
     ["RaftState::getSnapshot", "journal after reopen"])
prop("R04", "Membership changes take effect when logged and are undone when unlogged",
     "The cluster membership a node uses is always the one described by the newest membership entry in its log: adding, promoting, demoting or removing a node takes effect when the entry is appended, is refused while the previous change is uncommitted, keeps full members and observers disjoint and free of duplicates, and is rolled back exactly when the entry is removed from the log. The membership and its epoch read back the same after a restart.",
     ["histories", "inputs"],
     "All sequences of membership updates, commits, journal suffix removals and restarts, over generated host lists.",
     "The journal test performs a handful of fixed membership updates and one rollback.",
     ["src/raft/RaftJournal.cc", "src/raft/RaftMembers.hh", "src/Utils.cc"],
     [("epoch check and update", "RaftJournal::membershipUpdate / appendNoLock"), ("rollback", "RaftJournal::removeEntries"), ("serialization", "RaftMembers::toString / constructor")],
     [("members, membershipEpoch", "current membership", "RAFT_MEMBERS, RAFT_MEMBERSHIP_EPOCH, RAFT_PREVIOUS_MEMBERS")],
     ["RaftJournal::getMembership / getNodes / getObservers"])
prop("R05", "Election timeouts respect their configured range and every heartbeat",
     "Random election timeouts always fall inside the configured range, a follower times out only after at least the chosen timeout has elapsed since the last heartbeat it accepted, and every heartbeat postpones it. Timeout settings survive being written out and read back, and malformed or inverted settings are refused without effect.",
     ["inputs", "histories"],
     "All timeout configurations and heartbeat/time histories.",
     "Tests use three hard-coded timeout sets and wall-clock sleeps.",
     ["src/raft/RaftTimeouts.cc", "src/raft/RaftTimeouts.hh"],
     [("range", "RaftTimeouts::getRandom / setHeartbeat"), ("parsing", "RaftTimeouts::fromString")],
     [], ["RaftTimeouts, RaftHeartbeatTracker results"])
prop("R06", "Raft messages mean the same thing to sender and receiver",
     "Every heartbeat, append-entries and vote request, and every log entry, that one node can encode is decoded by its peer into the same values, whatever bytes the commands contain; messages that are malformed, truncated or come from a different cluster are rejected without any crash or out-of-bounds access.",
     ["inputs"],
     "All message field values and all byte strings as malformed messages.",
     "raft-parser tests check a few constants each and no malformed input beyond one or two examples.",
     ["src/raft/RaftUtils.cc", "src/raft/RaftCommon.hh", "src/raft/RaftTalker.cc"],
     [("parsing", "RaftParser"), ("encoding", "RaftTalker, RaftEntry, RaftSerializedEntry")],
     [], ["RaftParser results", "RESP replies"])
prop("R07", "Only entries stored on a quorum of this term are ever committed",
     "The commit index only moves forward, and moves to an index only when that entry and all before it are stored by a majority of the full members (observers never counting), with the entry belonging to the current leader's term. It never passes the end of the log, whatever the order in which replication progress is reported or membership changes.",
     ["histories", "schedules"],
     "All progress-report sequences for all member counts, membership changes and term layouts.",
     "Tests use clusters of three with a couple of scripted match-index updates.",
     ["src/raft/RaftCommitTracker.cc", "src/raft/RaftCommitTracker.hh"],
     [("quorum computation", "RaftCommitTracker::recalculateCommitIndex / updateCommitIndex")],
     [("match indexes", "replication progress per follower", "RaftMatchIndexTracker")],
     ["RaftJournal::getCommitIndex"])
prop("R08", "A leader's lease and an election are both decided by a true majority",
     "A leader considers itself valid only until the moment at which a majority of full members' last replies (itself included) stop being recent, under every membership, quorum size and reply history. An election is won only if a majority of the full members granted the vote in that election, a veto never makes it won, and it is reported as lost, vetoed or won consistently with the replies received.",
     ["histories", "inputs"],
     "All reply sets, cluster sizes, orders of replies, member-target changes and duplicate or missing replies.",
     "raft-lease and raft-vote tests use three to five nodes and fixed reply orders.",
     ["src/raft/RaftLease.cc", "src/raft/RaftVoteRegistry.cc"],
     [("nth freshest reply", "RaftLease::getDeadline / getShiftedDeadline"), ("vote counting", "RaftVoteRegistry::observeVotes")],
     [], ["RaftLease::getDeadline", "RaftVoteRegistry::getOutcome"])
prop("R09", "Committed entries are never lost or replaced, in any cluster history",
     "In every history of message delivery, loss, duplication, reordering, elections, crashes and restarts across a cluster, any two nodes that have committed an entry at an index committed the same entry, a newly elected leader holds every committed entry, and logs that agree on an index and term agree on everything before it. A node rejects appends and votes from out-of-date leaders and candidates.",
     ["schedules", "histories", "fault_sequences"],
     "All schedules of a small simulated cluster built from the real request handlers, journals and state objects.",
     "Cluster tests run a real network with wall-clock timing and see only a few benign schedules.",
     ["src/raft/RaftDispatcher.cc", "src/raft/RaftJournal.cc", "src/raft/RaftState.cc", "src/raft/RaftCommitTracker.cc"],
     [("append handling", "RaftDispatcher::appendEntries"), ("vote handling", "RaftDispatcher::requestVote"), ("conflict resolution", "RaftJournal::compareEntries / removeEntries")],
     [("commit index", "committed prefix", "RaftJournal")],
     ["journals of all nodes after every step"])
prop("R10", "Every accepted write is answered exactly once and in order",
     "A client write accepted by a leader receives exactly one reply, in submission order per connection: the command's own result once it is committed and applied, or an unavailability error when leadership is lost, and never both or neither. Writes are applied to the data in log order.",
     ["histories", "schedules"],
     "All interleavings of pipelined writes and reads from several connections with commits, leadership loss and journal flushes.",
     "Tests check a few pipelined writes on a healthy cluster.",
     ["src/raft/RaftWriteTracker.cc", "src/raft/RaftBlockedWrites.cc", "src/Connection.cc"],
     [("blocking queue per index", "RaftBlockedWrites"), ("pending queue", "PendingQueue::dispatchPending / addPendingTransaction")],
     [], ["bytes written to each client link"])

prop("R11", "A leader brings its followers to its own log and changes membership safely",
     "While it stays in power, a leader eventually makes the log of every reachable member equal to its own, whatever the follower held before, sends only entries and commit positions which are its own, counts replies only for what they acknowledge, and stops as soon as a newer term appears. Membership commands are accepted only from a leader, only when the new cluster would keep an up-to-date quorum, at most one at a time, and change exactly the named server. No reply from a peer and no membership command crashes it.",
     ["histories", "schedules", "fault_sequences"],
     "All follower logs, reply losses, unexpected replies, membership histories and leadership changes.",
     "Tests replicate a few entries on healthy clusters over a real network.",
     ["src/raft/RaftReplicator.cc", "src/raft/RaftDispatcher.cc", "src/raft/RaftTrimmer.cc", "src/raft/RaftResilverer.cc"],
     [("replication", "RaftReplicaTracker::main / streamUpdates / monitorAckReception"), ("membership", "RaftDispatcher::dispatch, RaftReplicator::reconfigure")],
     [("log of each follower", "follower progress", "RaftReplicaTracker")], ["requests sent to followers", "commit index", "membership"])

# ---------------------------------------------------------------- storage encoding
prop("S01", "Different keys and fields never share or interleave storage",
     "The stored location of every (type, key, field) is different from that of every other one, all fields of one container are stored contiguously in field order, and listing one container's storage range never yields anything that belongs to another key, whatever bytes keys, fields and hints contain.",
     ["inputs"],
     "All pairs and sets of binary keys, fields, locality hints and version prefixes, with emphasis on the delimiter and escape characters.",
     "Tests compare a few hard-coded encodings.",
     ["src/storage/KeyLocators.hh", "src/storage/KeyConstants.cc", "src/storage/InternalKeyParsing.hh"],
     [("escaping", "appendEscapedString"), ("prefixes", "FieldLocator, LocalityFieldLocator, LocalityIndexLocator")],
     [], ["encoded storage keys"])
prop("S02", "Stored locations decode back to the key and field they were made from",
     "Decoding the storage location of any key, field, locality entry or expiration event returns exactly the values it was made from. Decoding arbitrary or truncated bytes never crashes, over-reads or loops; it is recognised as malformed or yields a value consistent with the bytes.",
     ["inputs"],
     "All binary keys/fields/hints and all byte strings up to a length bound.",
     "EscapedPrefixExtractor tests sample random strings of one escaping form; reverse-location tests use a handful of constants.",
     ["src/storage/ReverseLocator.hh", "src/storage/InternalKeyParsing.cc"],
     [("reverse parsing", "ReverseLocator, EscapedPrefixExtractor")],
     [], ["decoded key and field"])
prop("S03", "Descriptors and fixed-width integers round-trip and keep their order",
     "Container descriptors, lease records, expiration records, version counters and binary integers read back exactly as written for the full range of values; encoded unsigned integers sort bytewise in numeric order. Decoding wrong-sized or corrupted records fails loudly instead of returning garbage or reading out of bounds.",
     ["inputs"],
     "All 64-bit values, all descriptor types, all truncations and bit flips.",
     "Tests check a few constants.",
     ["src/storage/KeyDescriptor.hh", "src/storage/LeaseInfo.hh", "src/utils/IntToBinaryString.hh", "src/storage/KeyDescriptorBuilder.cc"],
     [("encoding", "KeyDescriptor::serialize"), ("integers", "intToBinaryString / binaryStringToInt")],
     [], ["serialized forms"])
prop("S04", "Glob patterns match exactly what they say and never over-read",
     "Pattern matching used by KEYS, SCAN, HSCAN and raft log scans agrees with the documented glob rules (* ? [..] [^..] ranges and backslash escapes) for all patterns and texts including binary and malformed ones, without crashing or reading out of bounds. Restricting a search to the literal prefix of a pattern never hides a matching key.",
     ["inputs"],
     "All pattern/text pairs, including unterminated classes and escapes.",
     "No stable test touches the matcher; upstream tests use a dozen patterns.",
     ["deps/StringMatchLen.h", "src/storage/PatternMatching.hh"],
     [("matcher", "stringmatchlen"), ("prefix extraction", "extractPatternPrefix / isPrefixOnlyPattern")],
     [], ["match result", "scan results"])
prop("S05", "The expiration index lists each live deadline once, in deadline order",
     "After any sequence of lease deadline insertions and removals, the expiration index contains exactly the outstanding (deadline, lease) pairs and returns them earliest first.",
     ["histories"],
     "All insertion/removal sequences, equal deadlines and repeated lease names included.",
     "Tests insert and remove a handful of events.",
     ["src/storage/ExpirationEventCache.cc"],
     [("ordered multi-set", "ExpirationEventCache")],
     [], ["front / size / empty"])
prop("S06", "Revision notifications carry every change of a versioned hash exactly",
     "The serialized revision published for a versioned hash names the exact new version and, for every changed field, its final value or its deletion, and clients decoding it recover exactly those changes whatever the bytes.",
     ["inputs", "histories"],
     "All sequences of changes to several versioned hashes in one transaction.",
     "Tests check one or two revisions.",
     ["src/storage/VersionedHashRevisionTracker.cc", "src/Formatter.cc"],
     [("tracking", "VersionedHashRevisionTracker")],
     [], ["serialized revision"])

# ---------------------------------------------------------------- state machine
prop("M01", "Strings, hashes and sets behave exactly like their Redis reference",
     "For every sequence of commands on strings, hashes and sets, each reply and the data visible afterwards are those of a simple in-memory model: values binary-safe, counts exact, a container exists exactly while it has elements, a key has one type at a time with a type error otherwise, and failed commands change nothing.",
     ["histories", "inputs"],
     "All command sequences over a small hostile key space with binary keys and values.",
     "State machine tests check scripted sequences; here they do not even build.",
     ["src/StateMachine.cc", "src/storage/StagingArea.hh", "src/Dispatcher.cc"],
     [("write operations", "StateMachine::WriteOperation"), ("reads", "StateMachine read methods")],
     [("key descriptors", "type and size of each key", "StateMachine")],
     ["RESP replies"])
prop("M02", "Deques and locality hashes behave exactly like their reference",
     "For every sequence of commands, deques return elements in the order pushes and pops imply with trimming keeping the right end, and locality hashes return for each field the value last set under its current hint, with one location per field and exact counts. Lookups with and without a hint agree.",
     ["histories", "inputs"],
     "All command sequences, hints moving between fields, binary hints and fields.",
     "Scripted tests with a few fields.",
     ["src/StateMachine.cc", "src/storage/KeyLocators.hh"],
     [("deque indices", "StateMachine::dequePush* / dequePop* / dequeTrimFront"), ("locality index", "StateMachine::lhset / lhmset")],
     [], ["RESP replies"])
prop("M03", "Versioned hashes bump their version once per modifying transaction",
     "Every transaction that changes a versioned hash increases its version by exactly one and publishes one matching revision, transactions that change nothing do not, and contents returned with a version are exactly the result of replaying revisions up to that version.",
     ["histories"],
     "All command and transaction sequences on versioned hashes, subscriber replay included.",
     "Scripted tests.",
     ["src/StateMachine.cc", "src/storage/VersionedHashRevisionTracker.cc", "src/pubsub/Publisher.cc"],
     [("version", "StateMachine::vhset / vhdel / VersionedHashRevisionTracker")],
     [], ["RESP replies", "published revisions"])
prop("M04", "A lease is held by at most one holder until its deadline, on a monotone clock",
     "At any logical time a lease has at most one holder: it can be acquired only when free or expired, renewed only by its holder, released explicitly or when its deadline passes and never before, and deleting it frees it. The cluster clock that drives this never moves backwards.",
     ["histories"],
     "All sequences of acquire, renew, get, release, delete and clock movements.",
     "Scripted tests with a few holders and times.",
     ["src/StateMachine.cc", "src/storage/ExpirationEventCache.cc", "src/redis/LeaseFilter.cc"],
     [("acquisition", "StateMachine::lease_acquire"), ("expiry", "StateMachine::advanceClock / lease_release")],
     [], ["RESP replies"])
prop("M05", "Scans return every element exactly once across any paging",
     "Walking a cursor to its end with any page sizes returns every matching element that was there throughout exactly once and none that was never there, whether scanning keys, hashes, sets, deques or locality hashes; cursors are opaque and malformed ones are rejected.",
     ["inputs", "histories"],
     "All contents, page-size sequences, patterns and cursor strings; modifications between pages.",
     "Scripted scans over a few elements.",
     ["src/StateMachine.cc", "src/utils/CommandParsing.hh", "src/Dispatcher.cc"],
     [("paging", "StateMachine::scan / hscan / sscan / lhscan / dequeScanBack"), ("argument parsing", "parseScanCommand")],
     [], ["RESP replies"])
prop("M06", "Key-space commands see exactly the user's keys",
     "EXISTS, KEYS, DEL, FLUSHALL and type queries agree with each other about which keys exist; deleting a key of any type removes all of it and nothing else, and internal bookkeeping or configuration is never visible to or removed by them.",
     ["histories", "inputs"],
     "All mixed-type histories with hostile key names.",
     "Scripted tests.",
     ["src/StateMachine.cc"],
     [("key removal", "StateMachine::del / remove_all_with_prefix"), ("listing", "StateMachine::keys / flushall")],
     [], ["RESP replies", "raw storage enumeration"])
prop("M07", "A transaction is equivalent to its commands run back to back",
     "Running commands in one MULTI block gives the same replies and final data as running them one after another, later commands in the block seeing earlier ones; a block is atomic and never observed half-done.",
     ["histories"],
     "All partitions of command sequences into blocks.",
     "A few scripted MULTI tests.",
     ["src/Dispatcher.cc", "src/storage/StagingArea.hh", "src/redis/Transaction.cc", "src/redis/MultiHandler.cc"],
     [("staging", "StagingArea"), ("dispatch", "RedisDispatcher::dispatch(Transaction)")],
     [], ["RESP replies"])
prop("M08", "Applying the log is atomic, exactly-once and deterministic",
     "Each log entry updates the data and the applied position together: after a crash at any point the data are exactly those of the recorded position, entries are applied once in order, gaps and repeats are refused, and two replicas that applied the same log hold identical stored data regardless of restarts.",
     ["crash_points", "histories"],
     "All logs, restart points and cut points of the on-disk state.",
     "No stable test crashes a state machine.",
     ["src/StateMachine.cc", "src/storage/StagingArea.hh"],
     [("applied position", "StateMachine::commitBatch / commitTransaction / noop")],
     [("last applied", "applied position", "KeyConstants::kStateMachine_LastApplied")],
     ["reopened state machine"])
prop("M09", "Stored data stay internally consistent: no orphans, exact counters",
     "After any history, the on-disk data of every container matches its descriptor: the recorded size equals the number of stored elements, indexes and elements correspond one to one, every stored element belongs to an existing container, and the expiration index matches the leases.",
     ["histories"],
     "All mixed histories including type changes, deletions, moves, transactions and failed commands.",
     "No test inspects raw storage against descriptors.",
     ["src/StateMachine.cc"],
     [("size bookkeeping", "StateMachine::WriteOperation::finalize")],
     [], ["raw storage enumeration"])
prop("M10", "Bulk-loaded data are indistinguishable from normally written data",
     "Loading data in bulk-load mode and finalizing gives, after reopening, the same replies and stored data as writing the same commands normally; in bulk-load mode reads and deletions are refused.",
     ["histories"],
     "All sequences of bulk-loadable commands.",
     "One stress test with generated hashes.",
     ["src/StateMachine.cc", "src/storage/KeyDescriptorBuilder.cc", "src/Dispatcher.cc"],
     [("finalization", "StateMachine::finalizeBulkload, KeyDescriptorBuilder")],
     [], ["RESP replies after reopen"])

# ---------------------------------------------------------------- network
prop("N01", "Requests parse identically however the bytes are split",
     "A stream of well-formed requests (at least one element each, no empty element: those are refused by design) yields exactly the requests that were sent, arguments binary-safe, regardless of how the network fragments it; a malformed stream is rejected without crashing, over-reading or unbounded allocation, and never turns into a different valid request.",
     ["inputs", "schedules"],
     "All request streams, all fragmentations, all byte strings.",
     "Parser tests use a few fixed fragmentations.",
     ["src/RedisParser.cc", "src/BufferedReader.cc", "src/Link.cc"],
     [("incremental parsing", "RedisParser::fetch"), ("buffering", "BufferedReader::consume")],
     [], ["parsed requests"])
prop("N02", "Every reply is valid protocol that decodes to the value intended",
     "Every reply the server formats decodes, with an independent protocol parser, to exactly one value equal to the one intended, and no error text or payload, whatever bytes it contains, can break the framing of the stream.",
     ["inputs"],
     "All payloads for all reply shapes, nested arrays included.",
     "Formatter tests compare a dozen literals.",
     ["src/Formatter.cc", "src/redis/ArrayResponseBuilder.cc"],
     [("formatting", "Formatter")],
     [], ["reply bytes"])
prop("N03", "A transaction survives being logged and read back",
     "Serializing a transaction and reading it back yields the same commands, arguments and kind, whatever bytes they contain; corrupted or truncated encodings are refused without crashing or over-reading.",
     ["inputs"],
     "All transactions, all corruptions.",
     "A few literal transactions in upstream tests.",
     ["src/redis/Transaction.cc", "src/redis/Transaction.hh", "src/RedisRequest.cc", "src/memory/PinnedBuffer.hh"],
     [("encoding", "Transaction::serialize / deserialize / toRedisRequest")],
     [], ["decoded transaction"])
prop("N04", "Pipelined clients get one reply per request, in order, and MULTI is honoured",
     "On every connection each request gets exactly one reply, in order, however requests are pipelined and fragmented; MULTI queues and EXEC returns one reply per queued command, DISCARD drops them, and invalid uses give an error and leave the connection usable.",
     ["histories", "inputs"],
     "All request pipelines and fragmentations.",
     "Multi tests script a few dialogues.",
     ["src/Connection.cc", "src/redis/MultiHandler.cc", "src/Dispatcher.cc"],
     [("write batching", "Connection::processRequests"), ("MULTI state", "MultiHandler::process")],
     [], ["bytes written to the client"])
prop("N05", "Only holders of the cluster password get past authentication",
     "A connection is authenticated only by presenting the exact password or by signing, with the right key, the very challenge this connection was given; wrong, replayed, expired, reordered or tampered responses are refused, and unauthenticated connections cannot run any other command. Two nodes sharing a password always authenticate to each other.",
     ["inputs", "histories"],
     "All passwords, challenges, tamperings and orders of authentication commands.",
     "Tests try one good and a few bad signatures.",
     ["src/redis/Authenticator.cc", "src/auth/AuthenticationDispatcher.cc"],
     [("challenge", "Authenticator::generateChallenge"), ("validation", "Authenticator::validateSignature")],
     [], ["RESP replies", "authorization flag"])
prop("N06", "Commands are recognised regardless of letter case, and only in full",
     "Every documented command name is recognised in any letter case (with dashes and underscores interchangeable where documented) and maps to the same command, and no other string is recognised as a command. Every command is classified consistently as read, write or control.",
     ["inputs"],
     "All strings near each command name.",
     "No test enumerates names.",
     ["src/Commands.cc", "src/RedisRequest.cc"],
     [("lookup", "redis_cmd_map, caseInsensitiveEquals")],
     [], ["recognised command and class"])
prop("N07", "Clients can neither see nor forge internal commands",
     "A command that only the cluster may issue internally is never accepted from a client and never shown to one, and rewriting a client's lease command for the log preserves its meaning with the right timestamp and nothing else changed.",
     ["inputs"],
     "All commands with arbitrary arguments, in and out of transactions.",
     "One or two examples.",
     ["src/redis/InternalFilter.cc", "src/redis/LeaseFilter.cc"],
     [("filter", "InternalFilter::process"), ("lease rewriting", "LeaseFilter::transform")],
     [], ["filtered request"])
prop("N08", "Each message reaches exactly the subscribers of its channel or pattern",
     "A published message is delivered once per matching subscription to exactly the live clients subscribed to that channel or to a matching pattern; the reported receiver and subscription counts are exact, and concurrent subscription changes never lose, duplicate or misroute deliveries to unaffected clients or hang the publisher.",
     ["histories", "schedules"],
     "All subscribe/unsubscribe/publish/disconnect sequences and interleavings.",
     "A few scripted subscriptions.",
     ["src/pubsub/Publisher.cc", "src/pubsub/SubscriptionTracker.cc", "src/pubsub/SimplePatternMatcher.hh", "src/pubsub/ThreadSafeMultiMap.hh"],
     [("routing", "Publisher::publish*"), ("iteration", "ThreadSafeMultiMap")],
     [], ["bytes received per client"])

# ---------------------------------------------------------------- operations
prop("U01", "A configuration is accepted exactly when valid, and means what it says",
     "A configuration file is accepted exactly when every option is known, well-formed and consistent with the others; the accepted settings are exactly those written, in any order and with any amount of white space or foreign lines, the last one winning where an option is repeated.",
     ["configurations", "inputs"],
     "All configuration texts built from valid and near-valid options.",
     "Ten fixed configurations.",
     ["src/Configuration.cc", "src/config/ConfigurationReader.cc"],
     [("parsing", "Configuration::fromString"), ("validation", "Configuration::isValid")],
     [], ["Configuration accessors"])
prop("U02", "File helpers write, read, list and protect files exactly",
     "A file written is read back byte for byte, and a reported success means all bytes are there; write failures are reported. Directories are listed completely, paths are created as asked, and a password file is accepted only with owner-read-only permission, with surrounding trailing white space ignored.",
     ["inputs", "fault_sequences"],
     "All contents, names, permissions, directory trees and injected write failures.",
     "Tests write one or two small files.",
     ["src/utils/FileUtils.cc", "src/utils/DirectoryIterator.cc"],
     [("write/read", "write_file / read_file"), ("password", "readPasswordFile / areFilePermissionsSecure")],
     [], ["file contents and return values"])
prop("U03", "Shard directories are created, snapshotted and replaced without data loss",
     "A shard directory can be created only where none exists and reopened with the same identity and data; a snapshot or checkpoint is a complete consistent copy that does not change later; replacing contents by a resilvering keeps the old contents aside and installs the new ones entirely or not at all.",
     ["histories", "fault_sequences"],
     "All create/reopen/write/snapshot/resilver/cancel sequences and arbitrary directory names.",
     "One scripted resilvering test.",
     ["src/ShardDirectory.cc", "src/utils/Resilvering.cc"],
     [("snapshot", "ShardDirectory::takeSnapshot"), ("resilvering", "ShardDirectory::resilveringStart / Copy / Finish")],
     [], ["files on disk", "state machine and journal contents"])
prop("U04", "Resilvering history records every event and survives restarts",
     "The resilvering history lists every event in the order it happened with its identity and time, and reading it back from disk gives the same history; malformed histories are refused.",
     ["inputs", "histories"],
     "All event sequences, ids and times; all byte strings as files.",
     "One small round trip.",
     ["src/utils/Resilvering.cc"],
     [("serialization", "ResilveringHistory::serialize / deserialize")],
     [], ["history contents"])
prop("U05", "Request statistics count every command exactly once",
     "The numbers of reads, writes and batches reported by the server equal the numbers of commands processed, under any concurrency and on any set of processors; history keeps the most recent samples in order.",
     ["schedules", "histories"],
     "All operation mixes and thread interleavings, and all processor affinities.",
     "No stable test counts anything.",
     ["src/utils/Statistics.cc", "src/utils/RequestCounter.cc", "src/utils/CoreLocalArray.hh"],
     [("per-core counters", "CoreLocalArray"), ("classification", "RequestCounter::account")],
     [], ["Statistics fields"])
prop("U06", "Overall health is the worst indicator, and is reported faithfully",
     "The health of a node is the worst of its indicators, each indicator's name, status and message are reported intact, and the text form of a status decodes to the same status.",
     ["inputs"],
     "All lists of indicators.",
     "Three fixed lists.",
     ["src/health/HealthIndicator.hh", "src/Formatter.cc", "src/storage/WriteStallWarner.cc", "src/storage/ParanoidManifestChecker.cc"],
     [("worst", "chooseWorstHealth")],
     [], ["RESP reply"])
prop("U07", "The dynamic clock runs with real time and follows synchronizations",
     "Between synchronizations the cluster clock read by any observer never decreases and advances with real time; after a synchronization it starts from exactly the synchronized value. The static part never goes back: a synchronization to an earlier value is refused without effect.",
     ["histories", "schedules"],
     "All sequences of synchronizations, resets, time steps, and concurrent readers.",
     "One stress test.",
     ["src/Timekeeper.cc", "src/utils/ClockWrapper.hh"],
     [("clock", "Timekeeper::getDynamicTime / synchronize")],
     [], ["returned times"])
prop("U08", "Text utilities parse exactly what is valid and format reversibly",
     "Parsing numbers, host:port lists, scan and lease arguments, hex and durations accepts exactly the documented forms, returns the exact value, never reads past its input, and formatting followed by parsing is the identity.",
     ["inputs"],
     "All byte strings and all values.",
     "A few constants each.",
     ["src/Utils.cc", "src/utils/ParseUtils.hh", "src/utils/StringUtils.cc", "src/utils/TimeFormatting.cc", "src/utils/CommandParsing.hh"],
     [("parsing", "ParseUtils, StringUtils, parseServer(s)")],
     [], ["return values"])
prop("U09", "Buffers, pools and trackers never lose data, leak or deadlock",
     "Memory buffers keep their contents through growth, copying and substring sharing for as long as anyone holds them, and shutdown coordination lets no new operation in after it is requested and returns once all running operations have finished.",
     ["histories", "schedules"],
     "All operation sequences and thread interleavings.",
     "A few unit checks.",
     ["src/utils/SmartBuffer.hh", "src/memory/PinnedBuffer.hh", "src/memory/RingAllocator.hh", "src/utils/InFlightTracker.hh", "src/utils/StaticBuffer.hh"],
     [("reference counting", "PinnedBuffer, RingAllocator"), ("tracking", "InFlightTracker")],
     [], ["buffer contents", "tracker results"])
prop("U10", "Recovery tools edit exactly what they are told to",
     "The recovery interface reads and writes exactly the named raw entries, refuses to delete what does not exist, changes nothing else, and a journal re-initialised through it has exactly the requested identity and membership.",
     ["histories"],
     "All raw edit sequences.",
     "Scripted tests which do not build here.",
     ["src/recovery/RecoveryEditor.cc", "src/recovery/RecoveryDispatcher.cc"],
     [("editing", "RecoveryEditor")],
     [], ["raw database contents"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
