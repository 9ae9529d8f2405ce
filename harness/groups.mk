GROUPS = encoding journal store util shard net raft recovery
PLAIN = journal store shard raft recovery
# what nearly everything links against
BASE = $(addprefix src/,Utils.cc Formatter.cc RedisRequest.cc Commands.cc redis/ArrayResponseBuilder.cc redis/Transaction.cc utils/StringUtils.cc utils/Statistics.cc)
H_encoding = s_encoding
S_encoding = $(BASE) $(addprefix src/,storage/ExpirationEventCache.cc storage/InternalKeyParsing.cc storage/VersionedHashRevisionTracker.cc)
H_journal = r_journal
S_journal = $(BASE) $(addprefix src/,raft/RaftJournal.cc raft/RaftState.cc raft/RaftTimeouts.cc storage/KeyConstants.cc storage/WriteStallWarner.cc utils/FsyncThread.cc)
# what the state machine needs on top
STORE = $(SM) $(addprefix src/,Timekeeper.cc storage/ExpirationEventCache.cc storage/InternalKeyParsing.cc storage/VersionedHashRevisionTracker.cc storage/KeyConstants.cc storage/KeyDescriptorBuilder.cc storage/ParanoidManifestChecker.cc storage/ConsistencyScanner.cc storage/WriteStallWarner.cc storage/Randomization.cc utils/RequestCounter.cc utils/DirectoryIterator.cc utils/FileUtils.cc utils/TimeFormatting.cc) deps/xxhash/xxhash.cc
DISPATCH = $(addprefix src/,Dispatcher.cc Connection.cc Link.cc RedisParser.cc BufferedReader.cc BufferedWriter.cc redis/MultiHandler.cc redis/InternalFilter.cc redis/LeaseFilter.cc redis/Authenticator.cc pubsub/Publisher.cc pubsub/SubscriptionTracker.cc utils/Random.cc)
H_store = m_store
S_store = $(BASE) $(STORE) $(DISPATCH)
H_util = u_util
S_util = $(BASE) $(addprefix src/,Configuration.cc config/ConfigurationReader.cc Timekeeper.cc storage/ParanoidManifestChecker.cc utils/DirectoryIterator.cc utils/FileUtils.cc utils/RequestCounter.cc utils/Resilvering.cc utils/TimeFormatting.cc)
H_shard = u_shard
S_shard = $(BASE) $(STORE) $(addprefix src/,ShardDirectory.cc Configuration.cc config/ConfigurationReader.cc utils/Resilvering.cc raft/RaftJournal.cc raft/RaftState.cc raft/RaftTimeouts.cc utils/FsyncThread.cc)
NODE = $(addprefix src/,QuarkDBNode.cc Shard.cc StandaloneGroup.cc ShardDirectory.cc Configuration.cc config/ConfigurationReader.cc utils/Resilvering.cc utils/FsyncThread.cc auth/AuthenticationDispatcher.cc redis/CommandMonitor.cc)
RAFT = $(patsubst $(REPO)/%,%,$(wildcard $(REPO)/src/raft/*.cc))
H_net = n_proto n_pubsub n_node n_raft
S_net = $(BASE) $(STORE) $(DISPATCH) $(NODE) $(RAFT)
H_raft = q_node q_cluster q_replicate q_trim
S_raft = $(S_net)
H_recovery = u_recovery
S_recovery = $(BASE) $(STORE) $(DISPATCH) $(addprefix src/,recovery/RecoveryEditor.cc recovery/RecoveryDispatcher.cc raft/RaftJournal.cc raft/RaftState.cc raft/RaftTimeouts.cc utils/FsyncThread.cc)
