From bcb8781b454c4f13fe7bb044f7fa8787296f0918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 01/74] fix: SmartBuffer::expand to exactly the current heap
 size freed the buffer in use

---
 src/utils/SmartBuffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/SmartBuffer.hh b/src/utils/SmartBuffer.hh
index f5bc06d..1d777b7 100644
--- a/src/utils/SmartBuffer.hh
+++ b/src/utils/SmartBuffer.hh
@@ -63,7 +63,7 @@ public:
   void expand(size_t size) {
     qdb_assert(realSize <= size);
 
-    if(size < containerSize()) {
+    if(size <= containerSize()) {
       // Easy path, no copying necessary
       realSize = size;
       return;
-- 
2.43.0


From cabdb4a2196f5634b5ccc3d1a4e47d08451b353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 02/74] fix: decoding a malformed escaped key read out of
 bounds or aborted instead of reporting a parse error

---
 src/storage/ReverseLocator.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/storage/ReverseLocator.hh b/src/storage/ReverseLocator.hh
index d5e6d4b..559ccf9 100644
--- a/src/storage/ReverseLocator.hh
+++ b/src/storage/ReverseLocator.hh
@@ -36,22 +36,27 @@ inline size_t extractPrefix(std::string_view dkey, std::string &key) {
   for(size_t i = 0; i < dkey.size(); i++) {
     // Hash?
     if(dkey[i] == '#') {
+      bool afterPipe = (i > 0 && dkey[i-1] == '|');
+      bool beforeHash = (i+1 < dkey.size() && dkey[i+1] == '#');
+
       // Is this the boundary?
-      if(dkey[i+1] == '#' && dkey[i-1] != '|') {
+      if(beforeHash && !afterPipe) {
         // Yes, our work here is done.
         return i+2;
       }
 
-      if(dkey[i+1] == '#' && dkey[i-1] == '|' && i+2 < dkey.size() && dkey[i+2] != '#') {
+      if(beforeHash && afterPipe && (i+2 == dkey.size() || dkey[i+2] != '#')) {
         return i+2;
       }
 
-      if(dkey[i+1] == '#' && dkey[i-1] == '|' && i+2 < dkey.size() && dkey[i+2] == '#') {
+      if(beforeHash && afterPipe && i+2 < dkey.size() && dkey[i+2] == '#') {
         key[key.size() - 1] = '#';
         return i+3;
       }
 
-      qdb_assert(dkey[i-1] == '|');
+      // An unescaped, single hash: malformed
+      if(!afterPipe) break;
+
       // Replace previous character with '#'
       key[key.size() - 1] = '#';
     }
-- 
2.43.0


From c5d86aac52d8dcfa2fbf8ffc69f392ae77e70add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 03/74] fix: glob matcher read past the end of the pattern and
 of the text

---
 deps/StringMatchLen.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/deps/StringMatchLen.h b/deps/StringMatchLen.h
index 47f2c5f..f9fb17e 100644
--- a/deps/StringMatchLen.h
+++ b/deps/StringMatchLen.h
@@ -47,7 +47,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
     while(patternLen) {
         switch(pattern[0]) {
         case '*':
-            while (pattern[1] == '*') {
+            while (patternLen > 1 && pattern[1] == '*') {
                 pattern++;
                 patternLen--;
             }
@@ -72,27 +72,29 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         {
             int negation, match;
 
+            if (stringLen == 0)
+                return 0; /* no match */
             pattern++;
             patternLen--;
-            negation = pattern[0] == '^';
+            negation = patternLen && pattern[0] == '^';
             if (negation) {
                 pattern++;
                 patternLen--;
             }
             match = 0;
             while(1) {
-                if (pattern[0] == '\\') {
+                if (patternLen == 0) {
+                    pattern--;
+                    patternLen++;
+                    break;
+                } else if (patternLen >= 2 && pattern[0] == '\\') {
                     pattern++;
                     patternLen--;
                     if (pattern[0] == string[0])
                         match = 1;
                 } else if (pattern[0] == ']') {
                     break;
-                } else if (patternLen == 0) {
-                    pattern--;
-                    patternLen++;
-                    break;
-                } else if (pattern[1] == '-' && patternLen >= 3) {
+                } else if (patternLen >= 3 && pattern[1] == '-') {
                     int start = pattern[0];
                     int end = pattern[2];
                     int c = string[0];
@@ -137,6 +139,8 @@ inline int stringmatchlen(const char *pattern, int patternLen,
             }
             /* fall through */
         default:
+            if (stringLen == 0)
+                return 0; /* no match */
             if (!nocase) {
                 if (pattern[0] != string[0])
                     return 0; /* no match */
@@ -151,7 +155,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         pattern++;
         patternLen--;
         if (stringLen == 0) {
-            while(*pattern == '*') {
+            while(patternLen && *pattern == '*') {
                 pattern++;
                 patternLen--;
             }
-- 
2.43.0


From 7b67a9d181956a20ff79204572c43bbf1fb03b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 04/74] fix: re-initialising an open journal kept the old vote
 in memory

---
 src/raft/RaftJournal.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index c695972..a64e3d2 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -160,6 +160,7 @@ void RaftJournal::initialize() {
   members = RaftMembers(this->get_or_die(KeyConstants::kJournal_Members));
   initializeFsyncPolicy();
 
+  votedFor.clear();
   if(!vote.empty() && !parseServer(vote, votedFor)) {
     qdb_throw("journal corruption, cannot parse " << KeyConstants::kJournal_VotedFor << ": " << vote);
   }
-- 
2.43.0


From 546b178866a1c1070a9b23d61cf9d0b8c9a8bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 05/74] fix: fetching the last entries returned uninitialised
 ones in place of trimmed entries

---
 src/raft/RaftJournal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index a64e3d2..e952759 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -590,7 +590,7 @@ rocksdb::Status RaftJournal::fetch(LogIndex index, RaftSerializedEntry &data) {
 void RaftJournal::fetch_last(int last, std::vector<RaftEntry> &entries) {
   LogIndex endIndex = logSize;
   LogIndex startIndex = endIndex - last;
-  if(startIndex < 0) startIndex = 0;
+  if(startIndex < logStart) startIndex = logStart;
 
   for(LogIndex index = startIndex; index < endIndex; index++) {
     RaftEntry entry;
-- 
2.43.0


From ecf1a16b7777686ea2f52c42442510ff1507548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 06/74] fix: concurrent membership changes could overwrite an
 acknowledged one

---
 src/raft/RaftJournal.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index e952759..f67ee4a 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -313,9 +313,9 @@ RaftMembership RaftJournal::getMembership() {
   return {members.nodes, members.observers, membershipEpoch};
 }
 
+// Call with contentMutex held since before newMembers was derived from the
+// current membership, otherwise a concurrent change could be lost.
 bool RaftJournal::membershipUpdate(RaftTerm term, const RaftMembers &newMembers, std::string &err) {
-  std::scoped_lock lock(contentMutex);
-
   if(commitIndex < membershipEpoch) {
     err = SSTR("the current membership epoch has not been committed yet: " << membershipEpoch);
     return false;
@@ -326,24 +326,28 @@ bool RaftJournal::membershipUpdate(RaftTerm term, const RaftMembers &newMembers,
 }
 
 bool RaftJournal::addObserver(RaftTerm term, const RaftServer &observer, std::string &err) {
+  std::scoped_lock lock(contentMutex);
   RaftMembers newMembers = getMembers();
   if(!newMembers.addObserver(observer, err)) return false;
   return membershipUpdate(term, newMembers, err);
 }
 
 bool RaftJournal::removeMember(RaftTerm term, const RaftServer &member, std::string &err) {
+  std::scoped_lock lock(contentMutex);
   RaftMembers newMembers = getMembers();
   if(!newMembers.removeMember(member, err)) return false;
   return membershipUpdate(term, newMembers, err);
 }
 
 bool RaftJournal::promoteObserver(RaftTerm term, const RaftServer &observer, std::string &err) {
+  std::scoped_lock lock(contentMutex);
   RaftMembers newMembers = getMembers();
   if(!newMembers.promoteObserver(observer, err)) return false;
   return membershipUpdate(term, newMembers, err);
 }
 
 bool RaftJournal::demoteToObserver(RaftTerm term, const RaftServer &member, std::string &err) {
+  std::scoped_lock lock(contentMutex);
   RaftMembers newMembers = getMembers();
   if(!newMembers.demoteToObserver(member, err)) return false;
   return membershipUpdate(term, newMembers, err);
-- 
2.43.0


From db7a21e61680b15184e924d029e7d3ee2c816e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 07/74] fix: inverted, negative or overflowing raft timeouts
 were accepted

---
 src/raft/RaftTimeouts.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/raft/RaftTimeouts.cc b/src/raft/RaftTimeouts.cc
index 7da8f9d..b76a4d5 100644
--- a/src/raft/RaftTimeouts.cc
+++ b/src/raft/RaftTimeouts.cc
@@ -24,6 +24,7 @@
 #include "raft/RaftTimeouts.hh"
 #include "Utils.hh"
 #include "utils/ParseUtils.hh"
+#include <limits>
 #include <random>
 
 using namespace quarkdb;
@@ -98,6 +99,10 @@ bool RaftTimeouts::fromString(RaftTimeouts &ret, const std::string &str) {
     return parseError(str);
   }
 
+  if(low < 0 || high < low || heartbeat < 0 || high > std::numeric_limits<int>::max()) {
+    return parseError(str);
+  }
+
   ret = RaftTimeouts(milliseconds(low), milliseconds(high), milliseconds(heartbeat));
   return true;
 }
-- 
2.43.0


From d85944c4e81216c2a16018ee410666f035a1f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 08/74] fix: parsing integers accepted empty strings and
 blanks, refused the extreme values and read past unterminated views

---
 src/utils/ParseUtils.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utils/ParseUtils.hh b/src/utils/ParseUtils.hh
index 3d9e036..4f697ec 100644
--- a/src/utils/ParseUtils.hh
+++ b/src/utils/ParseUtils.hh
@@ -26,6 +26,7 @@
 
 #include "Utils.hh"
 
+#include <charconv>
 #include <climits>
 
 namespace quarkdb { namespace ParseUtils {
@@ -44,12 +45,9 @@ inline std::vector<std::string> split(std::string data, const std::string &token
 }
 
 inline bool parseInt64(std::string_view str, int64_t &ret) {
-  char *endptr = NULL;
-  ret = strtoll(str.data(), &endptr, 10);
-  if(endptr != str.data() + str.size() || ret == LLONG_MIN || ret == LONG_LONG_MAX) {
-    return false;
-  }
-  return true;
+  const char *end = str.data() + str.size();
+  auto [ptr, ec] = std::from_chars(str.data(), end, ret, 10);
+  return ec == std::errc() && ptr == end;
 }
 
 inline bool parseIntegerList(const std::string &buffer, const std::string &separator, std::vector<int64_t> &results) {
-- 
2.43.0


From b544c7500a760b8d06a7d5fd10910a619586c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 09/74] fix: parsing floating point numbers accepted empty
 strings and nan, and read past unterminated views

---
 src/Utils.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Utils.cc b/src/Utils.cc
index 7d5f400..6b46acc 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -27,7 +27,7 @@
 
 #include <climits>
 #include <memory.h>
-#include <math.h>
+#include <cmath>
 #include <sys/stat.h>
 
 namespace quarkdb {
@@ -62,9 +62,15 @@ bool caseInsensitiveEquals(std::string_view str1, std::string_view str2) {
 }
 
 bool my_strtod(std::string_view str, double &ret) {
+  if(str.empty() || isspace((unsigned char) str[0])) {
+    return false;
+  }
+
+  // strtod needs a terminated string, which a view does not guarantee
+  std::string terminated(str);
   char *endptr = NULL;
-  ret = strtod(str.data(), &endptr);
-  if(endptr != str.data() + str.size() || ret == HUGE_VAL || ret == -HUGE_VAL) {
+  ret = strtod(terminated.c_str(), &endptr);
+  if(endptr != terminated.c_str() + terminated.size() || !std::isfinite(ret)) {
     return false;
   }
   return true;
-- 
2.43.0


From dcc389d6ab9954d481ee62d43e29e29f1c28e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 10/74] fix: SISMEMBER inside a block with writes dereferenced
 a null snapshot and ignored the block's own changes

---
 src/StateMachine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 491d64d..4e02b8c 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -905,7 +905,7 @@ rocksdb::Status StateMachine::sismember(StagingArea &stagingArea, std::string_vi
   FieldLocator locator(KeyType::kSet, key, element);
 
   std::string tmp;
-  return db->Get(stagingArea.snapshot->opts(), locator.toView(), &tmp);
+  return stagingArea.get(locator.toView(), tmp);
 }
 
 rocksdb::Status StateMachine::srem(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &removed) {
-- 
2.43.0


From c697f5e25f4dc032de079454e5e45b0677318230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 11/74] fix: SMOVE with identical source and destination
 corrupted the size of the set

---
 src/StateMachine.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 4e02b8c..4e15824 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -922,6 +922,16 @@ rocksdb::Status StateMachine::srem(StagingArea &stagingArea, std::string_view ke
 }
 
 rocksdb::Status StateMachine::smove(StagingArea &stagingArea, std::string_view source, std::string_view destination, std::string_view element, int64_t &outcome) {
+  if(source == destination) {
+    // Moving an element onto its own set: nothing changes. Two write operations
+    // towards the same key would have overwritten each other's descriptor.
+    WriteOperation operation(stagingArea, source, KeyType::kSet);
+    if(!operation.valid()) return wrong_type();
+
+    outcome = operation.fieldExists(element);
+    return operation.finalize(operation.keySize());
+  }
+
   WriteOperation operation1(stagingArea, source, KeyType::kSet);
   if(!operation1.valid()) return wrong_type();
 
-- 
2.43.0


From f00de12adf7ff0a9ec08e73f47c5241b22b40dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 12/74] fix: LEASE-GET on a key of another type aborted the
 process

---
 src/Dispatcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index c3b73d3..44eb909 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -420,7 +420,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::null();
       }
 
-      qdb_assert(st.ok());
+      if(!st.ok()) return Formatter::fromStatus(st);
 
       std::vector<std::string> reply;
       reply.emplace_back(SSTR("HOLDER: " << leaseInfo.getValue()));
-- 
2.43.0


From 7bd4e9d4da0a31c301e290a4c18135468b4fb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 13/74] fix: LEASE-ACQUIRE with an empty holder aborted the
 process

---
 src/Dispatcher.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 44eb909..a1bf562 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -387,6 +387,10 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::err("value is not an integer or out of range");
       }
 
+      if(request[2].empty()) {
+        return Formatter::err("lease holder cannot be empty");
+      }
+
       qdb_assert(request[4].size() == 8u);
 
       ClockValue timestamp = binaryStringToUnsignedInt(request[4]);
-- 
2.43.0


From 58631e35016149bc317c9b5fb373893055af2001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 14/74] fix: setting a string to the empty value deleted its
 descriptor but kept the value

---
 src/StateMachine.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 4e15824..556f90e 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1176,7 +1176,7 @@ rocksdb::Status StateMachine::WriteOperation::finalize(int64_t newsize, bool for
 
   if(newsize < 0) qdb_throw("invalid newsize: " << newsize);
 
-  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash) {
+  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash && keyinfo.getKeyType() != KeyType::kString) {
     stagingArea.del(dlocator.toView());
   }
   else if(keyinfo.getSize() != newsize || forceUpdate) {
@@ -1238,7 +1238,7 @@ rocksdb::Status StateMachine::set(StagingArea &stagingArea, std::string_view key
   if(!operation.valid()) return wrong_type();
 
   operation.write(value);
-  return operation.finalize(value.size());
+  return operation.finalize(value.size(), !operation.keyExists());
 }
 
 rocksdb::Status StateMachine::dequePush(StagingArea &stagingArea, Direction direction, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &length) {
-- 
2.43.0


From 8271511923438c7428c235cfb4a2ff140cc182fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 15/74] fix: HVALS on a key of another type answered an empty
 list

---
 src/Dispatcher.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index a1bf562..e07cd2e 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -580,6 +580,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       if(request.size() != 2) return errArgs(request);
       std::vector<std::string> values;
       rocksdb::Status st = store.hvals(stagingArea, request[1], values);
+      if(!st.ok()) return Formatter::fromStatus(st);
       return Formatter::vector(values);
     }
     case RedisCommand::HSCAN: {
-- 
2.43.0


From e666debde762483d45badb1a9731f04f9da128e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 16/74] fix: HINCRBY overflowed silently, HINCRBYFLOAT stored
 values it later refused to read

---
 src/StateMachine.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 556f90e..aafc4dc 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -37,6 +37,7 @@
 #include "storage/ParanoidManifestChecker.hh"
 #include "utils/IntToBinaryString.hh"
 #include "utils/TimeFormatting.hh"
+#include <cmath>
 #include <sys/stat.h>
 #include <rocksdb/status.h>
 #include <rocksdb/merge_operator.h>
@@ -562,7 +563,11 @@ rocksdb::Status StateMachine::hincrby(StagingArea &stagingArea, std::string_view
     return malformed("hash value is not an integer");
   }
 
-  result += incrbyInt64;
+  if(__builtin_add_overflow(result, incrbyInt64, &result)) {
+    operation.finalize(operation.keySize());
+    result = 0;
+    return malformed("increment or decrement would overflow");
+  }
 
   operation.writeField(field, std::to_string(result));
   return operation.finalize(operation.keySize() + !exists);
@@ -587,6 +592,10 @@ rocksdb::Status StateMachine::hincrbyfloat(StagingArea &stagingArea, std::string
   }
 
   result += incrByDouble;
+  if(!std::isfinite(result)) {
+    operation.finalize(operation.keySize());
+    return malformed("increment would produce NaN or Infinity");
+  }
 
   operation.writeField(field, std::to_string(result));
   return operation.finalize(operation.keySize() + !exists);
-- 
2.43.0


From 58170f26d41b7105e41c9307ec3e93d5f7a98296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 17/74] fix: LHGET-WITH-FALLBACK with a wrong number of
 arguments answered nothing or read out of bounds

---
 src/Dispatcher.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index e07cd2e..5fd98fa 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -715,6 +715,9 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       else if(request.size() == 5) {
         resp = dispatchLHGET(stagingArea, request[1], request[2], request[3]);
       }
+      else {
+        return errArgs(request);
+      }
 
       // Did we succeed?
       if(resp.val != Formatter::null().val) return resp;
-- 
2.43.0


From 23f754993b70ca9ebdc181a3475546885ff1fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 18/74] fix: LHSET-AND-DEL-FALLBACK deleted the fallback field
 even though nothing had been stored

---
 src/Dispatcher.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 5fd98fa..0b2c35a 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -343,7 +343,11 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     case RedisCommand::LHSET_AND_DEL_FALLBACK: {
       if(request.size() != 6) return errArgs(request);
       RedisEncodedResponse resp = dispatchLHSET(stagingArea, request[1], request[2], request[3], request[4]);
-      dispatchHDEL(stagingArea, request[5], request.begin()+2, request.begin()+3);
+      if(resp.val == Formatter::integer(0).val || resp.val == Formatter::integer(1).val) {
+        // Only drop the fallback once the field has been stored.
+        dispatchHDEL(stagingArea, request[5], request.begin()+2, request.begin()+3);
+      }
+
       return resp;
     }
     case RedisCommand::LHDEL_WITH_FALLBACK: {
-- 
2.43.0


From 58896f3b6fd1e900da1831f201593fb01ecbdb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 19/74] fix: DEQUE-SCAN-BACK with a large COUNT returned
 endless empty pages

---
 src/StateMachine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index aafc4dc..3f4156c 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -851,7 +851,7 @@ rocksdb::Status StateMachine::dequeScanBack(StagingArea &stagingArea, std::strin
 
   uint64_t startingMarker = cursorMarker - count;
 
-  if(startingMarker <= keyinfo.getStartIndex() + 1) {
+  if(cursorMarker <= keyinfo.getStartIndex() + 1 || count >= cursorMarker - (keyinfo.getStartIndex() + 1)) {
     newCursor = "";
     startingMarker = keyinfo.getStartIndex() + 1;
   }
-- 
2.43.0


From 2cd0ba5471af77ef89a1757e09213529922a1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:47 +0000
Subject: [PATCH 20/74] fix: SCAN accepted zero counts spelled differently from
 0

---
 src/utils/CommandParsing.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/CommandParsing.hh b/src/utils/CommandParsing.hh
index 284f805..f4855da 100644
--- a/src/utils/CommandParsing.hh
+++ b/src/utils/CommandParsing.hh
@@ -79,6 +79,11 @@ inline ScanCommandArguments parseScanCommand(const RedisRequest::const_iterator
         args.error = "value is not an integer or out of range";
         return args;
       }
+
+      if(args.count <= 0) {
+        args.error = "syntax error";
+        return args;
+      }
     }
     else if(caseInsensitiveEquals(*pos, "match") && supportMatch) {
       args.match = *(pos+1);
-- 
2.43.0


From 89acf438209cad9e6cd0b1c6a475e81769a46ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:47 +0000
Subject: [PATCH 21/74] fix: VHDEL removing nothing created the key, published
 a revision and hid later changes of the same block

---
 src/StateMachine.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 3f4156c..e8ade0d 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1423,11 +1423,11 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   WriteOperation operation(stagingArea, key, KeyType::kVersionedHash);
   if(!operation.valid()) return wrong_type();
 
-  VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
-
   for(ReqIterator it = start; it != end; it++) {
-    removed += operation.deleteField(*it);
-    revision.addUpdate(*it, "");
+    if(operation.deleteField(*it)) {
+      removed++;
+      stagingArea.getRevisionTracker().forKey(key).addUpdate(*it, "");
+    }
   }
 
   // Have we modified this key in the same write batch already?
@@ -1439,12 +1439,18 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   KeyDescriptor &descriptor = operation.descriptor();
   version = descriptor.getStartIndex();
 
-  if(removed != 0 && !operation.descriptorModifiedAlreadyInWriteBatch()) {
+  if(removed == 0) {
+    // Nothing has changed: No new version, and no key gets created.
+    operation.cancel();
+    return rocksdb::Status::OK();
+  }
+
+  if(!operation.descriptorModifiedAlreadyInWriteBatch()) {
     version++;
     descriptor.setStartIndex(version);
   }
 
-  revision.setRevisionNumber(version);
+  stagingArea.getRevisionTracker().forKey(key).setRevisionNumber(version);
 
   int64_t newsize = operation.keySize() - removed;
   return operation.finalize(newsize, true);
-- 
2.43.0


From 2ec81edde0475e49b0040314bc84dd16a3b5def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:47 +0000
Subject: [PATCH 22/74] fix: empty keys, fields or hints in locality hash
 commands aborted the process

---
 src/StateMachine.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index e8ade0d..fdde231 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -401,9 +401,17 @@ void StateMachine::lhsetInternal(WriteOperation &operation, std::string_view key
   return;
 }
 
+static rocksdb::Status emptyLocalityArgument() {
+  return malformed("locality hash keys, fields and hints cannot be empty");
+}
+
 rocksdb::Status StateMachine::lhmset(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end) {
   if((end - start) % 3 != 0) qdb_throw("lhmset: distance between start and end iterators must be a multiple of three");
 
+  for(auto it = start; it != end; it += 3) {
+    if(key.empty() || it->empty() || (it+1)->empty()) return emptyLocalityArgument();
+  }
+
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
@@ -418,6 +426,8 @@ rocksdb::Status StateMachine::lhmset(StagingArea &stagingArea, std::string_view
 }
 
 rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, std::string_view value, bool &fieldcreated) {
+  if(key.empty() || field.empty() || hint.empty()) return emptyLocalityArgument();
+
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
@@ -427,6 +437,7 @@ rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view k
 }
 
 rocksdb::Status StateMachine::lhlocdel(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, int64_t &removed) {
+  if(key.empty() || field.empty() || hint.empty()) return emptyLocalityArgument();
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
   LocalityFieldLocator locator(key, hint, field);
@@ -450,6 +461,11 @@ rocksdb::Status StateMachine::lhlocdel(StagingArea &stagingArea, std::string_vie
 rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &removed) {
   removed = 0;
 
+  if(key.empty()) return emptyLocalityArgument();
+  for(ReqIterator it = start; it != end; it++) {
+    if(it->empty()) return emptyLocalityArgument();
+  }
+
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
@@ -467,6 +483,7 @@ rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view k
 }
 
 rocksdb::Status StateMachine::lhget(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, std::string &value) {
+  if(key.empty() || field.empty()) return emptyLocalityArgument();
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
   if(!hint.empty()) {
@@ -717,6 +734,7 @@ rocksdb::Status StateMachine::hscan(StagingArea &stagingArea, std::string_view k
 }
 
 rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view key, std::string_view cursor, std::string_view matchloc, size_t count, std::string &newCursor, std::vector<std::string> &results) {
+  if(key.empty()) return emptyLocalityArgument();
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
   std::string_view cursorHint;
-- 
2.43.0


From 5fb0bdf45323eceb61b5d11500cc7a76c95ddf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:47 +0000
Subject: [PATCH 23/74] fix: LHSCAN with MATCHLOC missed fields after the first
 page or with a # in the pattern, and aborted on malformed cursors

---
 src/StateMachine.cc | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index fdde231..941504e 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -749,12 +749,12 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
   // Any rocksdb keys we touch must have this prefix.
   size_t keyPrefixSize = locator.toView().size();
   std::string requiredPrefix(locator.toView());
-  std::string_view scanStart = requiredPrefix;
+  std::string cursorPosition;
 
   if(!cursor.empty()) {
     // Decompose cursor into hint + field.
     EscapedPrefixExtractor extractor;
-    if(!extractor.parse(cursor)) {
+    if(!extractor.parse(cursor) || extractor.getOriginalPrefix().empty()) {
       return malformed("invalid cursor");
     }
 
@@ -763,24 +763,21 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
 
     // We start from the given hint + field.
     locator.resetHint(cursorHint);
-
-    if(!patternPrefix.empty()) {
-      requiredPrefix = locator.toView();
-    }
-
     locator.resetField(cursorField);
-    scanStart = locator.toView();
+    cursorPosition = locator.toView();
   }
-  else if(!patternPrefix.empty()) {
-    locator.resetHint(patternPrefix);
-    requiredPrefix += patternPrefix;
-    scanStart = locator.toView();
 
-    if(patternPrefix.size() != matchloc.size()) {
-      scanStart.remove_suffix(2);
-    }
+  if(!patternPrefix.empty()) {
+    // All matching hints start with the (escaped) pattern prefix. The hint may
+    // continue past that, so the trailing boundary must not be required.
+    locator.resetHint(patternPrefix);
+    requiredPrefix = locator.toView();
+    requiredPrefix.resize(requiredPrefix.size() - 2);
   }
 
+  // Never go back before the prefix, even if the cursor says so.
+  std::string_view scanStart = (cursorPosition > requiredPrefix) ? std::string_view(cursorPosition) : std::string_view(requiredPrefix);
+
   newCursor = "";
   IteratorPtr iter(stagingArea.getIterator());
 
-- 
2.43.0


From 27cba13f33a01918068e36b643418c88eb4f52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 24/74] fix: parsing integers keeps accepting an explicit plus
 sign

---
 src/utils/ParseUtils.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/ParseUtils.hh b/src/utils/ParseUtils.hh
index 4f697ec..1ada1d6 100644
--- a/src/utils/ParseUtils.hh
+++ b/src/utils/ParseUtils.hh
@@ -45,6 +45,7 @@ inline std::vector<std::string> split(std::string data, const std::string &token
 }
 
 inline bool parseInt64(std::string_view str, int64_t &ret) {
+  if(str.size() >= 2 && str[0] == '+' && str[1] != '-') str.remove_prefix(1);
   const char *end = str.data() + str.size();
   auto [ptr, ec] = std::from_chars(str.data(), end, ret, 10);
   return ec == std::errc() && ptr == end;
-- 
2.43.0


From d08df14f08451f91d969e9bfe038372cdfd94e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 25/74] fix: HINCRBYMULTI added leftovers of refused increments
 to its reply

---
 src/StateMachine.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 941504e..700f411 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -576,6 +576,7 @@ rocksdb::Status StateMachine::hincrby(StagingArea &stagingArea, std::string_view
 
   result = 0;
   if(exists && !ParseUtils::parseInt64(value, result)) {
+    result = 0;
     operation.finalize(operation.keySize());
     return malformed("hash value is not an integer");
   }
-- 
2.43.0


From 4976781f4660802ed96fd9105caf91ada49f3626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:29 +0000
Subject: [PATCH 26/74] fix: modifying, deleting and re-creating a versioned
 hash within one block aborted the process

---
 src/StateMachine.cc                         |  5 +++++
 src/storage/VersionedHashRevisionTracker.cc | 14 ++++++++++++++
 src/storage/VersionedHashRevisionTracker.hh | 10 ++++++++++
 3 files changed, 29 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 700f411..6e9eea4 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1788,6 +1788,10 @@ rocksdb::Status StateMachine::del(StagingArea &stagingArea, const ReqIterator &s
     KeyDescriptor keyInfo = lockKeyDescriptor(stagingArea, dlocator);
     if(keyInfo.empty()) continue;
 
+    // The version of a versioned hash starts over if the key gets re-created
+    // within the same transaction.
+    stagingArea.getRevisionTracker().forget(*it);
+
     std::string tmp;
 
     if(keyInfo.getKeyType() == KeyType::kString) {
@@ -1915,6 +1919,7 @@ rocksdb::Status StateMachine::flushall(StagingArea &stagingArea) {
   int64_t tmp;
   remove_all_with_prefix("", tmp, stagingArea);
   mExpirationCache.clear();
+  stagingArea.getRevisionTracker().clear();
   return rocksdb::Status::OK();
 }
 
diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index 8edbf9f..574256c 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -61,6 +61,20 @@ VersionedHashRevision& VersionedHashRevisionTracker::forKey(std::string_view key
   return contents[std::string(key)];
 }
 
+//------------------------------------------------------------------------------
+// Forget any updates related to a key, as it has just been deleted
+//------------------------------------------------------------------------------
+void VersionedHashRevisionTracker::forget(std::string_view key) {
+  contents.erase(std::string(key));
+}
+
+//------------------------------------------------------------------------------
+// Forget everything
+//------------------------------------------------------------------------------
+void VersionedHashRevisionTracker::clear() {
+  contents.clear();
+}
+
 //------------------------------------------------------------------------------
 // Iterate through contents
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 605b62c..5314305 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -74,6 +74,16 @@ public:
     return contents.empty();
   }
 
+  //----------------------------------------------------------------------------
+  // Forget any updates related to a key, as it has just been deleted
+  //----------------------------------------------------------------------------
+  void forget(std::string_view key);
+
+  //----------------------------------------------------------------------------
+  // Forget everything
+  //----------------------------------------------------------------------------
+  void clear();
+
   //----------------------------------------------------------------------------
   // Iterate through contents
   //----------------------------------------------------------------------------
-- 
2.43.0


From 4e4118c27917fee1736a53b5a665d1faebd43281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:27 +0000
Subject: [PATCH 27/74] fix: published versioned hash revisions were read from
 memory already freed

---
 src/storage/VersionedHashRevisionTracker.cc | 3 ++-
 src/storage/VersionedHashRevisionTracker.hh | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index 574256c..030bedb 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -51,7 +51,8 @@ void VersionedHashRevision::addUpdate(std::string_view field, std::string_view v
 // Serialize contents
 //------------------------------------------------------------------------------
 std::string VersionedHashRevision::serialize() const {
-  return Formatter::vhashRevision(currentRevision, updateBatch).val;
+  std::vector<std::pair<std::string_view, std::string_view>> views(updateBatch.begin(), updateBatch.end());
+  return Formatter::vhashRevision(currentRevision, views).val;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 5314305..4cb224b 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -53,7 +53,9 @@ public:
 
 private:
   uint64_t currentRevision = 0;
-  std::vector<std::pair<std::string_view, std::string_view>> updateBatch;
+  // Owned copies - revisions are published asynchronously, long after the request
+  // which caused them is gone.
+  std::vector<std::pair<std::string, std::string>> updateBatch;
 };
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 613db1da85140d10bf1793cd22436ef7ee9f5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:50 +0000
Subject: [PATCH 28/74] fix: FLUSHALL mixed ordinary and single deletions of
 expiration events, letting deleted ones come back

---
 src/StateMachine.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 6e9eea4..9d92d2f 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1775,7 +1775,15 @@ void StateMachine::remove_all_with_prefix(std::string_view prefix, int64_t &remo
     if(!StringUtils::startsWith(key, prefix)) break;
     if(key.size() > 0 && (key[0] == char(InternalKeyType::kInternal) || key[0] == char(InternalKeyType::kConfiguration))) continue;
 
-    stagingArea.del(key);
+    if(key.size() > 0 && key[0] == char(InternalKeyType::kExpirationEvent)) {
+      // Expiration events are single-deleted everywhere, and rocksdb does not
+      // allow mixing that with ordinary deletions of the same key.
+      stagingArea.singleDelete(key);
+    }
+    else {
+      stagingArea.del(key);
+    }
+
     removed++;
   }
 }
-- 
2.43.0


From 3c564646ac8922a0ee508fb6275ca8a6b0c1b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 29/74] fix: bulk loading lost the descriptor of the empty key

---
 src/storage/KeyDescriptorBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/KeyDescriptorBuilder.cc b/src/storage/KeyDescriptorBuilder.cc
index 34bd94d..96b433a 100644
--- a/src/storage/KeyDescriptorBuilder.cc
+++ b/src/storage/KeyDescriptorBuilder.cc
@@ -29,7 +29,7 @@
 using namespace quarkdb;
 
 static void appendToWriteBatch(std::string &prefix, std::string &key, KeyDescriptor &descriptor, rocksdb::WriteBatch &wb) {
-  if(!key.empty()) {
+  if(!descriptor.empty()) {
     DescriptorLocator dlocator(key);
     wb.Put(dlocator.toView(), descriptor.serialize());
   }
-- 
2.43.0


From 84aeecb9437dfc24e3832192d25288895c284bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 30/74] fix: removing from a non-existing key during bulk load
 aborted the process

---
 src/StateMachine.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 9d92d2f..05b9a00 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1202,7 +1202,9 @@ rocksdb::Status StateMachine::WriteOperation::finalize(int64_t newsize, bool for
   if(newsize < 0) qdb_throw("invalid newsize: " << newsize);
 
   if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash && keyinfo.getKeyType() != KeyType::kString) {
-    stagingArea.del(dlocator.toView());
+    // Nothing to delete if the key never existed - during bulkload, that's
+    // always the case, and deletions would be refused.
+    if(redisKeyExists) stagingArea.del(dlocator.toView());
   }
   else if(keyinfo.getSize() != newsize || forceUpdate) {
     keyinfo.setSize(newsize);
-- 
2.43.0


From 5ffa86ad4a01f627099b83a1aea27726f5ae8828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 31/74] fix: commands iterating over fields saw data during
 bulk load, contrary to all other reads

---
 src/storage/StagingArea.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/storage/StagingArea.hh b/src/storage/StagingArea.hh
index f3e90f1..1c8d4cd 100644
--- a/src/storage/StagingArea.hh
+++ b/src/storage/StagingArea.hh
@@ -160,6 +160,11 @@ public:
   }
 
   StateMachine::IteratorPtr getIterator(bool withInternalKeys = false) {
+    if(bulkLoad) {
+      // No reading
+      return StateMachine::IteratorPtr(rocksdb::NewEmptyIterator());
+    }
+
     if(readOnly) {
       // Return an iterator that views only the current snapshot.
       rocksdb::ReadOptions opts = snapshot->opts();
@@ -169,11 +174,6 @@ public:
       return StateMachine::IteratorPtr(stateMachine.db->NewIterator(opts));
     }
 
-    if(bulkLoad) {
-      // No reading
-      return StateMachine::IteratorPtr(rocksdb::NewEmptyIterator());
-    }
-
     // Return an iterator which takes into account keys both in WriteBatchWithIndex,
     // and the DB.
     rocksdb::ReadOptions opts;
-- 
2.43.0


From 9e78db4f9e6ddd119054c512b7abaca093a2b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 32/74] fix: core-local counters were accessed out of bounds
 when running on a core past the number of usable ones

---
 src/utils/CoreLocalArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/CoreLocalArray.hh b/src/utils/CoreLocalArray.hh
index a8e49f1..83d7949 100644
--- a/src/utils/CoreLocalArray.hh
+++ b/src/utils/CoreLocalArray.hh
@@ -111,7 +111,7 @@ public:
   //----------------------------------------------------------------------------
   int getCoreIndex() const {
     int cpuno = sched_getcpu();
-    if(cpuno < 0 || cpuno > (int) cpus) {
+    if(cpuno < 0 || cpuno >= (int) cpus) {
       cpuno = 0;
     }
 
-- 
2.43.0


From 0f3966de0383d84e2c0ea15dd8cbe54d29dc83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 33/74] fix: mkpath skipped the first component of relative
 paths, and took files for directories

---
 src/utils/FileUtils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/FileUtils.cc b/src/utils/FileUtils.cc
index ff1631c..d0d9370 100644
--- a/src/utils/FileUtils.cc
+++ b/src/utils/FileUtils.cc
@@ -37,7 +37,7 @@ std::string pathJoin(std::string_view part1, std::string_view part2) {
 }
 
 bool mkpath(const std::string &path, mode_t mode, std::string &err) {
-  size_t pos = path.find("/");
+  size_t pos = 0;
 
   while( (pos = path.find("/", pos+1)) != std::string::npos) {
     std::string chunk = path.substr(0, pos);
@@ -51,6 +51,10 @@ bool mkpath(const std::string &path, mode_t mode, std::string &err) {
         return false;
       }
     }
+    else if(!S_ISDIR(sb.st_mode)) {
+      err = SSTR("cannot create directory " << chunk << ": exists, and is not a directory");
+      return false;
+    }
   }
 
   return true;
-- 
2.43.0


From 93f893a1b714d53b63a0eb32d095f7632e7e8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 34/74] fix: writing a file reported partial writes as success,
 and empty contents as failure

---
 src/utils/FileUtils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/FileUtils.cc b/src/utils/FileUtils.cc
index d0d9370..ec88c2c 100644
--- a/src/utils/FileUtils.cc
+++ b/src/utils/FileUtils.cc
@@ -196,8 +196,13 @@ bool write_file(std::string_view path, std::string_view contents, std::string &e
     return false;
   }
 
-  retvalue = fwrite(contents.data(), sizeof(char), contents.size(), out);
-  fclose(out);
+  retvalue = (fwrite(contents.data(), sizeof(char), contents.size(), out) == contents.size());
+  retvalue &= (fclose(out) == 0);
+
+  if(!retvalue) {
+    err = SSTR("Unable to write all of " << path << ", errno: " << errno);
+  }
+
   return retvalue;
 }
 
-- 
2.43.0


From 5b45931c08ab402f971d84a2eb7197adff8fb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 35/74] fix: resilvering events whose ID contains the separator
 could not be read back

---
 src/utils/Resilvering.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/Resilvering.cc b/src/utils/Resilvering.cc
index c1d391a..02513ca 100644
--- a/src/utils/Resilvering.cc
+++ b/src/utils/Resilvering.cc
@@ -40,15 +40,16 @@ std::string ResilveringEvent::serialize() const {
 }
 
 bool ResilveringEvent::deserialize(const std::string &str, ResilveringEvent &ret) {
-  std::vector<std::string> parts = split(str, " - ");
-  if(parts.size() != 2) return false;
+  // The ID might contain the separator, the time never does.
+  size_t separator = str.rfind(" - ");
+  if(separator == std::string::npos) return false;
 
   // Parse event ID
-  ret.id = parts[0];
+  ret.id = str.substr(0, separator);
 
   // Parse time
   int64_t t;
-  if(!ParseUtils::parseInt64(parts[1], t)) return false;
+  if(!ParseUtils::parseInt64(str.substr(separator + 3), t)) return false;
   ret.startTime = (time_t) t;
 
   return true;
-- 
2.43.0


From 2d916f47ecd9115aa7532673a05c57bfc5e2a47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 36/74] fix: truncated or malformed resilvering histories were
 accepted as shorter or empty ones

---
 src/utils/Resilvering.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/Resilvering.cc b/src/utils/Resilvering.cc
index 02513ca..f046dda 100644
--- a/src/utils/Resilvering.cc
+++ b/src/utils/Resilvering.cc
@@ -95,6 +95,11 @@ bool ResilveringHistory::deserialize(const std::string &str, ResilveringHistory
   hist.events.clear();
 
   std::vector<std::string> parts = split(str, "\n");
+
+  // Every event is terminated by a newline - anything past the last one means
+  // the history is truncated, or not a history.
+  if(!parts.back().empty()) return false;
+
   for(size_t i = 0; i < parts.size() - 1; i++) {
     ResilveringEvent ret;
     if(!ResilveringEvent::deserialize(parts[i], ret)) return false;
-- 
2.43.0


From d5551a8b22470c6e6a04f0fece3f9acc42dc0620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 37/74] fix: deleting snapshots and moving state machines
 passed unquoted paths to the shell

---
 src/ShardDirectory.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 1016959..a3d0646 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -27,6 +27,7 @@
 #include "raft/RaftJournal.hh"
 
 #include <sys/stat.h>
+#include <filesystem>
 
 using namespace quarkdb;
 
@@ -34,7 +35,8 @@ ShardSnapshot::ShardSnapshot(const std::string &path_)
 : path(path_) { }
 
 ShardSnapshot::~ShardSnapshot() {
-  system(SSTR("rm -rf " << path).c_str());
+  std::error_code ec;
+  std::filesystem::remove_all(path, ec);
 }
 
 std::string ShardSnapshot::getPath() {
@@ -147,7 +149,7 @@ void ShardDirectory::wipeoutStateMachineContents() {
     //--------------------------------------------------------------------------
     // Not open, simply delete the entire folder
     //--------------------------------------------------------------------------
-    qdb_assert(system(SSTR("rm -rf '" << stateMachinePath() << "'").c_str()) == 0);
+    std::filesystem::remove_all(stateMachinePath());
   }
 }
 
@@ -193,7 +195,11 @@ void ShardDirectory::initializeStateMachine(std::unique_ptr<StateMachine> sm, Lo
   //----------------------------------------------------------------------------
   // Do the actual move
   //----------------------------------------------------------------------------
-  qdb_assert(system(SSTR("mv " << quotes(sourceStateMahchine) << " " << quotes(stateMachinePath()) ).c_str()) == 0);
+  if(rename(sourceStateMahchine.c_str(), stateMachinePath().c_str()) != 0) {
+    // Different filesystem?
+    std::filesystem::copy(sourceStateMahchine, stateMachinePath(), std::filesystem::copy_options::recursive);
+    std::filesystem::remove_all(sourceStateMahchine);
+  }
 
   //----------------------------------------------------------------------------
   // Force reset lastApplied.
-- 
2.43.0


From eedaf05199041e61a9d6b358d7239a4becd369ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 38/74] fix: creating a shard from a non-zero index without a
 state machine dereferenced null

---
 src/ShardDirectory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index a3d0646..3b3193a 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -173,6 +173,7 @@ void ShardDirectory::initializeStateMachine(std::unique_ptr<StateMachine> sm, Lo
     //--------------------------------------------------------------------------
     wipeoutStateMachineContents();
     getStateMachine()->forceResetLastApplied(initialLastApplied);
+    return;
   }
 
   //----------------------------------------------------------------------------
-- 
2.43.0


From 2044ec909d8494f4cc436f864d29dbb7720d2c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 39/74] fix: creating a standalone shard from a state machine
 left it locked by a leaked object

---
 src/ShardDirectory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 3b3193a..b7a8f03 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -257,7 +257,7 @@ ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID cl
 
   // Standalone shard, we start from LogIndex 0
   shardDirectory->initializeStateMachine(std::move(sm), 0);
-  return new ShardDirectory(path);
+  return shardDirectory;
 }
 
 ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID clusterID, ShardID shardID, const std::vector<RaftServer> &nodes, LogIndex startIndex, FsyncPolicy fsyncPolicy, std::unique_ptr<StateMachine> sm, Status &st) {
-- 
2.43.0


From 7a7aaf2edec16421b68393e3268c32a308c78722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 40/74] fix: servers with truncated ports, empty names or list
 separators in their name were accepted

---
 src/Utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils.cc b/src/Utils.cc
index 6b46acc..5f515e6 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -105,6 +105,10 @@ bool parseServer(std::string_view str, RaftServer &srv) {
 
   int64_t port;
   if(!ParseUtils::parseInt64(parts[1], port)) return false;
+  if(port < INT_MIN || port > INT_MAX) return false;
+
+  // Would be impossible to tell apart from other servers in a list of members
+  if(parts[0].empty() || parts[0].find_first_of(",|") != std::string::npos) return false;
 
   srv = RaftServer{ parts[0], (int) port };
   return true;
-- 
2.43.0


From 7b5780e14ac462a40110156b3adc89bc60cda7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 41/74] fix: configuration options were matched by prefix,
 making certificate_key unusable, and the mode was uninitialised by default

---
 src/Configuration.cc | 20 ++++++++++----------
 src/Configuration.hh |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index e8cbb92..552b549 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -135,34 +135,34 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
     bool success = false;
     std::string buffer;
 
-    if(StringUtils::startsWith("mode", current)) {
+    if(current == "mode") {
       success = fetchSingle(reader, buffer) && parseMode(buffer, out.mode);
     }
-    else if(StringUtils::startsWith(current, "database")) {
+    else if(current == "database") {
       success = fetchSingle(reader, out.database);
     }
-    else if(StringUtils::startsWith(current, "myself")) {
+    else if(current == "myself") {
       success = fetchSingle(reader, buffer) && parseServer(buffer, out.myself);
     }
-    else if(StringUtils::startsWith(current, "trace")) {
+    else if(current == "trace") {
       success = fetchSingle(reader, buffer) && parseTraceLevel(buffer, out.trace);
     }
-    else if(StringUtils::startsWith(current, "certificate")) {
+    else if(current == "certificate") {
       success = fetchSingle(reader, out.certificatePath);
     }
-    else if(StringUtils::startsWith(current, "certificate_key")) {
+    else if(current == "certificate_key") {
       success = fetchSingle(reader, out.certificateKeyPath);
     }
-    else if(StringUtils::startsWith(current, "write_ahead_log")) {
+    else if(current == "write_ahead_log") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.writeAheadLog);
     }
-    else if(StringUtils::startsWith(current, "password_file")) {
+    else if(current == "password_file") {
       success = fetchSingle(reader, out.passwordFilePath);
     }
-    else if(StringUtils::startsWith(current, "password")) {
+    else if(current == "password") {
       success = fetchSingle(reader, out.password);
     }
-    else if(StringUtils::startsWith(current, "require_password_for_localhost")) {
+    else if(current == "require_password_for_localhost") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.requirePasswordForLocalhost);
     }
     else {
diff --git a/src/Configuration.hh b/src/Configuration.hh
index 6bf5391..917c41e 100644
--- a/src/Configuration.hh
+++ b/src/Configuration.hh
@@ -75,7 +75,7 @@ public:
 
   std::string extractPasswordOrDie() const;
 private:
-  Mode mode;
+  Mode mode = Mode::standalone;
   std::string database;
   TraceLevel trace = TraceLevel::info;
   std::string certificatePath;
-- 
2.43.0


From 8d1918cfe98e5c820b20b8ff1c3379e8cf5cc98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 42/74] fix: configuration options without a value swallowed
 the following line

---
 src/Configuration.cc              |  4 +---
 src/config/ConfigurationReader.cc | 15 +++++++++++++++
 src/config/ConfigurationReader.hh |  5 +++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index 552b549..bd32ef1 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -48,9 +48,7 @@ bool Configuration::fromFile(const std::string &filename, Configuration &out) {
 }
 
 static bool fetchSingle(ConfigurationReader &reader, std::string &dest) {
-  reader.advanceWord();
-
-  if(reader.eof()) {
+  if(!reader.advanceWordOnSameLine()) {
     return false;
   }
 
diff --git a/src/config/ConfigurationReader.cc b/src/config/ConfigurationReader.cc
index 1151a44..6137961 100644
--- a/src/config/ConfigurationReader.cc
+++ b/src/config/ConfigurationReader.cc
@@ -74,6 +74,21 @@ void ConfigurationReader::advanceWord() {
   mPosition = findNextNonWhitespace();
 }
 
+//------------------------------------------------------------------------------
+// Advance to next word, unless there's none left on this line
+//------------------------------------------------------------------------------
+bool ConfigurationReader::advanceWordOnSameLine() {
+  size_t pos = findNextWhitespace();
+  while(pos < mContents.size() && isspace(mContents[pos]) && mContents[pos] != '\n') {
+    pos++;
+  }
+
+  if(pos >= mContents.size() || mContents[pos] == '\n') return false;
+
+  mPosition = pos;
+  return true;
+}
+
 //------------------------------------------------------------------------------
 // Advance to next line
 //------------------------------------------------------------------------------
diff --git a/src/config/ConfigurationReader.hh b/src/config/ConfigurationReader.hh
index 10368b5..7403628 100644
--- a/src/config/ConfigurationReader.hh
+++ b/src/config/ConfigurationReader.hh
@@ -48,6 +48,11 @@ public:
   //----------------------------------------------------------------------------
   void advanceWord();
 
+  //----------------------------------------------------------------------------
+  // Advance to next word, unless there's none left on this line
+  //----------------------------------------------------------------------------
+  bool advanceWordOnSameLine();
+
   //----------------------------------------------------------------------------
   // Advance to next line
   //----------------------------------------------------------------------------
-- 
2.43.0


From 670d37409c6e9f02998e611418e2f8f9bf386db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 43/74] fix: malformed serialized transactions were read out of
 bounds or aborted the process

---
 src/redis/Transaction.cc | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/redis/Transaction.cc b/src/redis/Transaction.cc
index 8bc55c3..b9574c8 100644
--- a/src/redis/Transaction.cc
+++ b/src/redis/Transaction.cc
@@ -93,10 +93,10 @@ bool Transaction::deserialize(const RedisRequest &req) {
   if(!this->deserialize(req[1])) return false;
 
   if(req.getCommand() == RedisCommand::TX_READONLY) {
-    qdb_assert(!this->containsWrites());
+    if(this->containsWrites()) return false;
   }
   else {
-    qdb_assert(this->containsWrites());
+    if(!this->containsWrites()) return false;
   }
 
   this->setPhantom(phantom);
@@ -105,32 +105,42 @@ bool Transaction::deserialize(const RedisRequest &req) {
 
 bool Transaction::deserialize(const PinnedBuffer &src) {
   qdb_assert(requests.empty());
-  if(src.empty()) return false;
 
-  const char *pos = src.data();
-  int64_t totalRequests = binaryStringToInt(pos);
-  pos += sizeof(int64_t);
-  size_t bytesConsumed = sizeof(int64_t);
+  size_t bytesConsumed = 0;
+  auto fetchInt = [&](int64_t &out) -> bool {
+    if(src.size() - bytesConsumed < sizeof(int64_t)) return false;
+    out = binaryStringToInt(src.data() + bytesConsumed);
+    bytesConsumed += sizeof(int64_t);
+    return out >= 0;
+  };
+
+  auto malformed = [&]() -> bool {
+    this->clear();
+    return false;
+  };
 
-  requests.resize(totalRequests);
+  int64_t totalRequests;
+  if(!fetchInt(totalRequests)) return malformed();
 
   for(int64_t i = 0; i < totalRequests; i++) {
-    int64_t totalParts = binaryStringToInt(pos);
-    pos += sizeof(int64_t);
-    bytesConsumed += sizeof(int64_t);
+    int64_t totalParts;
+    if(!fetchInt(totalParts) || totalParts == 0) return malformed();
+    requests.emplace_back();
 
     for(int64_t part = 0; part < totalParts; part++) {
-      int64_t length = binaryStringToInt(pos);
-      pos += sizeof(int64_t);
-      bytesConsumed += sizeof(int64_t);
+      int64_t length;
+      if(!fetchInt(length) || src.size() - bytesConsumed < (size_t) length) return malformed();
 
       requests[i].push_back(src.substr(bytesConsumed, length));
-      pos += (length * sizeof(char));
-      bytesConsumed += (length * sizeof(char));
+      bytesConsumed += length;
     }
+
+    CommandType type = requests[i].getCommandType();
+    if(type != CommandType::READ && type != CommandType::WRITE) return malformed();
     checkNthCommandForWrites(i);
   }
 
+  if(bytesConsumed != src.size()) return malformed();
   return true;
 }
 
-- 
2.43.0


From e609ae3e0a254e43c92c92fe11d679dfba90075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 44/74] fix: iterating over all subscriptions looped forever
 when a key vanished in the meantime

---
 src/pubsub/ThreadSafeMultiMap.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pubsub/ThreadSafeMultiMap.hh b/src/pubsub/ThreadSafeMultiMap.hh
index 21b095d..310c5c7 100644
--- a/src/pubsub/ThreadSafeMultiMap.hh
+++ b/src/pubsub/ThreadSafeMultiMap.hh
@@ -361,6 +361,9 @@ public:
           // Found valid position
           return;
         }
+
+        // All values of this key have been erased in the meantime
+        keyIter.next();
       }
 
       isValid = false;
-- 
2.43.0


From b62e00e6ae68d8a55be57ad28746d1d379ed3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:15 +0000
Subject: [PATCH 45/74] fix: initial values of synchronized objects were
 dropped

---
 src/utils/Synchronized.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Synchronized.hh b/src/utils/Synchronized.hh
index c090fbf..0ff2f35 100644
--- a/src/utils/Synchronized.hh
+++ b/src/utils/Synchronized.hh
@@ -31,7 +31,7 @@ namespace quarkdb {
 template<typename T>
 class Synchronized {
 public:
-  Synchronized(const T& t) {}
+  Synchronized(const T& t) : contents(t) {}
 
   Synchronized() {}
 
-- 
2.43.0


From 32c09874fbe719a9d12c59dc7cff7fda684d45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 46/74] fix: shard checkpoints left out a raft journal that had
 not been opened yet

---
 src/ShardDirectory.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index b7a8f03..ae3e325 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -400,7 +400,9 @@ std::string ShardDirectory::checkpoint(std::string_view path) {
     return err;
   }
 
-  if(journalptr) {
+  // The journal is opened lazily - it's part of the shard even if not open yet.
+  std::string suberr;
+  if(hasRaftJournal(suberr)) {
     std::string journalCheckpoint = pathJoin(checkpointCurrent, "raft-journal");
     rocksdb::Status st = getRaftJournal()->checkpoint(journalCheckpoint);
     if(!st.ok()) {
-- 
2.43.0


From 4f79119232e037a75124dc84589d3840e6073f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 47/74] fix: resetting a state machine kept its lease
 expiration cache

---
 src/StateMachine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 05b9a00..d7916a9 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -215,6 +215,12 @@ void StateMachine::reset() {
     db->Delete(rocksdb::WriteOptions(), iter->key().ToString());
   }
 
+  // The events backing the expiration cache are gone.
+  {
+    std::scoped_lock lock(mExpirationCacheMutex);
+    mExpirationCache.clear();
+  }
+
   ensureCompatibleFormat(true);
   ensureBulkloadSanity(true);
   ensureClockSanity(true);
-- 
2.43.0


From b852c27a6239bc150b47e03327c764bd9725c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 48/74] fix: the protocol parser truncated large sizes, took
 negative ones at face value and accepted requests without elements

---
 src/RedisParser.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/RedisParser.cc b/src/RedisParser.cc
index 8883b21..d1bfc22 100644
--- a/src/RedisParser.cc
+++ b/src/RedisParser.cc
@@ -57,6 +57,11 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
     element_size = -1;
     current_element = 0;
 
+    if(request_size == 0) {
+      qdb_warn("Redis protocol error, received a request without any elements");
+      return -1;
+    }
+
     if(!authenticated && request_size >= 5) {
       qdb_warn("Unauthenticated client attempted to send request with " << request_size << " elements - shutting the connection down");
       return -2;
@@ -104,9 +109,19 @@ int RedisParser::readInteger(char prefix, int &retval) {
 
   current_integer.erase(current_integer.size()-2, 2);
 
-  char *endptr;
-  long num = strtol(current_integer.c_str()+1, &endptr, 10);
-  if(*endptr != '\0' || num == LONG_MIN || num == LONG_MAX) {
+  // Only plain digits are allowed: neither signs, nor whitespace. The result,
+  // plus the trailing \r\n, has to fit into an int.
+  int64_t num = 0;
+  bool valid = current_integer.size() > 1;
+
+  for(size_t i = 1; valid && i < current_integer.size(); i++) {
+    char c = current_integer[i];
+    valid = ('0' <= c && c <= '9');
+    num = num * 10 + (c - '0');
+    valid = valid && num <= INT_MAX - 2;
+  }
+
+  if(!valid) {
     qdb_warn("Redis protocol error, received an invalid integer");
     return -1;
   }
-- 
2.43.0


From 31dfb62ab389b2cd1a49665ad0330667124d6a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 49/74] fix: the protocol parser allocated memory for however
 many elements a request announced

---
 src/RedisParser.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/RedisParser.cc b/src/RedisParser.cc
index d1bfc22..584dbf0 100644
--- a/src/RedisParser.cc
+++ b/src/RedisParser.cc
@@ -23,6 +23,7 @@
 
 #include "RedisParser.hh"
 #include "utils/Macros.hh"
+#include <algorithm>
 #include <climits>
 
 using namespace quarkdb;
@@ -67,10 +68,15 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
       return -2;
     }
 
-    req.resize(request_size);
   }
 
   for( ; current_element < request_size; current_element++) {
+    // Allocate space progressively: Memory should be a function of what the
+    // client has sent so far, and not of what it promises to send.
+    if((size_t) current_element == req.size()) {
+      req.resize(std::min((size_t) request_size, std::max((size_t) 1024, req.size() * 2)));
+    }
+
     int rc = readElement(req.getPinnedBuffer(current_element), authenticated);
     if(rc <= 0) return rc;
     element_size = -1;
-- 
2.43.0


From cb0b3f282f09854c59e4dbc5c1586e9079036a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 50/74] fix: line terminators inside errors and statuses broke
 the protocol

---
 src/Formatter.cc | 28 ++++++++++++++++++++--------
 src/Shard.cc     |  4 ++--
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/Formatter.cc b/src/Formatter.cc
index ee493f3..192d779 100644
--- a/src/Formatter.cc
+++ b/src/Formatter.cc
@@ -28,19 +28,31 @@
 #include "redis/ArrayResponseBuilder.hh"
 #include "redis/Transaction.hh"
 #include "utils/Statistics.hh"
+#include <algorithm>
 using namespace quarkdb;
 
+//------------------------------------------------------------------------------
+// Errors and statuses are terminated by an end-of-line: Replace any embedded
+// ones, or everything after them would be interpreted as a separate reply.
+//------------------------------------------------------------------------------
+static std::string singleLine(std::string_view str) {
+  std::string out(str);
+  std::replace(out.begin(), out.end(), '\r', ' ');
+  std::replace(out.begin(), out.end(), '\n', ' ');
+  return out;
+}
+
 RedisEncodedResponse Formatter::moved(int64_t shardId, const RaftServer &location) {
-  return RedisEncodedResponse(SSTR("-MOVED " << shardId << " " << location.toString() << "\r\n"));
+  return RedisEncodedResponse(SSTR("-MOVED " << shardId << " " << singleLine(location.toString()) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::err(std::string_view err) {
-  return RedisEncodedResponse(SSTR("-ERR " << err << "\r\n"));
+  return RedisEncodedResponse(SSTR("-ERR " << singleLine(err) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::errArgs(std::string_view cmd) {
   qdb_warn("Received malformed " << quotes(cmd) << " command - wrong number of arguments");
-  return RedisEncodedResponse(SSTR("-ERR wrong number of arguments for '" << cmd << "' command\r\n"));
+  return RedisEncodedResponse(SSTR("-ERR wrong number of arguments for '" << singleLine(cmd) << "' command\r\n"));
 }
 
 RedisEncodedResponse Formatter::pong() {
@@ -58,7 +70,7 @@ RedisEncodedResponse Formatter::string(std::string_view str) {
 }
 
 void Formatter::status(std::ostringstream &ss, std::string_view str) {
-  ss << "+" << str << "\r\n";
+  ss << "+" << singleLine(str) << "\r\n";
 }
 
 RedisEncodedResponse Formatter::status(std::string_view str) {
@@ -107,7 +119,7 @@ RedisEncodedResponse Formatter::vector(const std::vector<std::string> &vec) {
 void Formatter::statusVector(std::ostringstream &ss, const std::vector<std::string> &vec) {
   ss << "*" << vec.size() << "\r\n";
   for(std::vector<std::string>::const_iterator it = vec.begin(); it != vec.end(); it++) {
-    ss << "+" << *it << "\r\n";
+    ss << "+" << singleLine(*it) << "\r\n";
   }
 }
 
@@ -218,7 +230,7 @@ RedisEncodedResponse Formatter::journalScan(LogIndex cursor, const std::vector<R
 }
 
 RedisEncodedResponse Formatter::noauth(std::string_view str) {
-  return RedisEncodedResponse(SSTR("-NOAUTH " << str << "\r\n"));
+  return RedisEncodedResponse(SSTR("-NOAUTH " << singleLine(str) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::versionedVector(uint64_t num, const std::vector<std::string> &vec) {
@@ -284,11 +296,11 @@ RedisEncodedResponse Formatter::vectorsWithHeaders(const std::vector<std::string
 
   for(size_t i = 0; i < headers.size(); i++) {
     ss << "*2\r\n";
-    ss << "+" << headers[i] << "\r\n";
+    ss << "+" << singleLine(headers[i]) << "\r\n";
 
     ss << "*" << data[i].size() << "\r\n";
     for(size_t j = 0; j < data[i].size(); j++) {
-      ss << "+" << data[i][j] << "\r\n";
+      ss << "+" << singleLine(data[i][j]) << "\r\n";
     }
   }
 
diff --git a/src/Shard.cc b/src/Shard.cc
index 01f5d11..b6a3a84 100644
--- a/src/Shard.cc
+++ b/src/Shard.cc
@@ -225,7 +225,7 @@ LinkStatus Shard::dispatch(Connection *conn, RedisRequest &req) {
         return conn->err("unavailable");
       }
 
-      return conn->status(stateMachine->levelStats());
+      return conn->string(stateMachine->levelStats());
     }
     case RedisCommand::QUARKDB_COMPRESSION_STATS: {
       if(req.size() != 1) return conn->errArgs(req[0]);
@@ -240,7 +240,7 @@ LinkStatus Shard::dispatch(Connection *conn, RedisRequest &req) {
         ss << "Level " << i << ": " << stats[i] << std::endl;
       }
 
-      return conn->status(ss.str());
+      return conn->string(ss.str());
     }
     case RedisCommand::QUARKDB_HEALTH: {
       if(req.size() != 1) return conn->errArgs(req[0]);
-- 
2.43.0


From 21ebd7e036aebe78ceff9b33edf071472244c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 51/74] fix: describing a malformed transaction aborted the
 process

---
 src/Formatter.cc    | 5 ++++-
 src/RedisRequest.cc | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Formatter.cc b/src/Formatter.cc
index 192d779..9c9552b 100644
--- a/src/Formatter.cc
+++ b/src/Formatter.cc
@@ -156,7 +156,10 @@ RedisEncodedResponse Formatter::simpleRedisRequest(const RedisRequest &req) {
 RedisEncodedResponse Formatter::redisRequest(const RedisRequest &req) {
   if(req.getCommand() == RedisCommand::TX_READWRITE || req.getCommand() == RedisCommand::TX_READONLY) {
     Transaction transaction;
-    transaction.deserialize(req[1]);
+    if(!transaction.deserialize(req)) {
+      // malformed, show contents as-is
+      return simpleRedisRequest(req);
+    }
 
     ArrayResponseBuilder builder(transaction.size() + 1);
     builder.push_back(Formatter::string(req[0]));
diff --git a/src/RedisRequest.cc b/src/RedisRequest.cc
index 7b2eacc..e2962e4 100644
--- a/src/RedisRequest.cc
+++ b/src/RedisRequest.cc
@@ -47,8 +47,11 @@ void RedisRequest::parseCommand() {
 std::string RedisRequest::toPrintableString() const {
   if(this->getCommand() == RedisCommand::TX_READONLY || this->getCommand() == RedisCommand::TX_READWRITE) {
     Transaction transaction;
-    transaction.fromRedisRequest(*this);
-    return transaction.toPrintableString();
+    if(transaction.deserialize(*this)) {
+      return transaction.toPrintableString();
+    }
+
+    // malformed, print contents as-is
   }
 
   std::stringstream ss;
-- 
2.43.0


From abe0dc6299de821a295a82ffc01e84152c140dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 52/74] fix: transactions packed by clients aborted the process
 when malformed, and could smuggle in internal commands

---
 src/Connection.cc           | 17 +++++++++++++++--
 src/Dispatcher.cc           |  4 ++--
 src/redis/InternalFilter.cc | 20 ++++++++++++++++++++
 src/redis/InternalFilter.hh |  8 +++++++-
 src/redis/MultiHandler.hh   |  1 +
 5 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 5cef8d0..6ce488c 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -309,9 +309,22 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       continue;
     }
 
-    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE) {
+    // Transaction already packed by the client? Unpack, so that its contents
+    // are treated exactly like those of a MULTI / EXEC block.
+    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE || currentRequest.getCommand() == RedisCommand::TX_READONLY) {
       multiHandler.finalizePhantomTransaction(dispatcher, this);
-      dispatcher->dispatch(this, currentRequest);
+
+      Transaction tx;
+      if(multiHandler.inMulti()) {
+        this->err("Only reads and writes allowed within MULTI/EXEC blocks.");
+      }
+      else if(!tx.deserialize(currentRequest) || !InternalFilter::permitted(tx) || tx.expectedResponses() == 0) {
+        this->err("malformed transaction");
+      }
+      else {
+        dispatcher->dispatch(this, tx);
+      }
+
       continue;
     }
 
diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 0b2c35a..7bb7c5c 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -474,7 +474,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     case RedisCommand::TX_READWRITE: {
       // Unpack transaction and process
       Transaction transaction;
-      qdb_assert(transaction.deserialize(request));
+      if(!transaction.deserialize(request)) return Formatter::err("malformed transaction");
       return dispatch(stagingArea, transaction);
     }
     default: {
@@ -829,7 +829,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
     case RedisCommand::TX_READONLY: {
       // Unpack transaction and process
       Transaction transaction;
-      qdb_assert(transaction.deserialize(request));
+      if(!transaction.deserialize(request)) return Formatter::err("malformed transaction");
       return dispatchReadOnly(stagingArea, transaction);
     }
     case RedisCommand::VHLEN: {
diff --git a/src/redis/InternalFilter.cc b/src/redis/InternalFilter.cc
index 4465025..6b9f336 100644
--- a/src/redis/InternalFilter.cc
+++ b/src/redis/InternalFilter.cc
@@ -23,8 +23,28 @@
 
 #include "redis/InternalFilter.hh"
 #include "RedisRequest.hh"
+#include "redis/Transaction.hh"
 using namespace quarkdb;
 
+bool InternalFilter::permitted(const Transaction &tx) {
+  for(size_t i = 0; i < tx.size(); i++) {
+    switch(tx[i].getCommand()) {
+      case RedisCommand::TIMESTAMPED_LEASE_RELEASE:
+      case RedisCommand::TIMESTAMPED_LEASE_ACQUIRE:
+      case RedisCommand::TIMESTAMPED_LEASE_GET:
+      case RedisCommand::TX_READONLY:
+      case RedisCommand::TX_READWRITE: {
+        return false;
+      }
+      default: {
+        break;
+      }
+    }
+  }
+
+  return true;
+}
+
 void InternalFilter::process(RedisRequest &req) {
   switch(req.getCommand()) {
     case RedisCommand::TIMESTAMPED_LEASE_RELEASE:
diff --git a/src/redis/InternalFilter.hh b/src/redis/InternalFilter.hh
index d3cb16b..27e7ed7 100644
--- a/src/redis/InternalFilter.hh
+++ b/src/redis/InternalFilter.hh
@@ -26,7 +26,7 @@
 
 namespace quarkdb {
 
-class RedisRequest;
+class RedisRequest; class Transaction;
 
 class InternalFilter {
 public:
@@ -37,6 +37,12 @@ public:
   // generated internally.
   //----------------------------------------------------------------------------
   static void process(RedisRequest &req);
+
+  //----------------------------------------------------------------------------
+  // Does the given transaction, as assembled by a client, contain only commands
+  // which clients are allowed to put into transactions?
+  //----------------------------------------------------------------------------
+  static bool permitted(const Transaction &tx);
 };
 
 }
diff --git a/src/redis/MultiHandler.hh b/src/redis/MultiHandler.hh
index 7d65503..d3b9788 100644
--- a/src/redis/MultiHandler.hh
+++ b/src/redis/MultiHandler.hh
@@ -40,6 +40,7 @@ public:
   LinkStatus process(Dispatcher *dispatcher, Connection *conn, RedisRequest &req);
   void activatePhantom();
   size_t size() const;
+  bool inMulti() const { return activated && !transaction.isPhantom(); }
   bool isPhantom() const { return activated && transaction.isPhantom(); }
   LinkStatus finalizePhantomTransaction(Dispatcher *dispatcher, Connection *conn);
 
-- 
2.43.0


From 0ecc490a316e3662118e41dda11dd5cbe4b738d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 53/74] fix: EXEC without MULTI pipelined after writes reached
 the dispatcher, aborting the process in raft mode

---
 src/Connection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 6ce488c..4b3ab84 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -304,7 +304,8 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
     }
 
     // EXEC without MULTI?
-    if(currentRequest.getCommand() == RedisCommand::EXEC && !multiHandler.active()) {
+    if(currentRequest.getCommand() == RedisCommand::EXEC && !multiHandler.inMulti()) {
+      multiHandler.finalizePhantomTransaction(dispatcher, this);
       this->err("EXEC without MULTI");
       continue;
     }
-- 
2.43.0


From 0972647df46c5d689c21388ffc5cefc76bc9f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 54/74] fix: CLIENT without arguments read past the end of the
 request

---
 src/QuarkDBNode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 2b0d07a..487250b 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -105,6 +105,8 @@ LinkStatus QuarkDBNode::dispatch(Connection *conn, RedisRequest &req) {
       return conn->raw(handlePing(req));
     }
     case RedisCommand::CLIENT: {
+      if(req.size() < 2) return conn->errArgs(req[0]);
+
       if(caseInsensitiveEquals(req[1], "setname")) {
         if(req.size() != 3) return conn->errArgs(req[0]);
 
-- 
2.43.0


From a32b1bd99bdfa3035bc1c9f260aa7c208d425acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 55/74] fix: unauthenticated clients received a single reply
 for any number of pipelined writes

---
 src/QuarkDBNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 487250b..e593200 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -82,7 +82,7 @@ bool QuarkDBNode::isAuthenticated(Connection *conn) const {
 LinkStatus QuarkDBNode::dispatch(Connection *conn, Transaction &transaction) {
   // We need to be authenticated past this point. Are we?
   if(!isAuthenticated(conn)) {
-    return conn->noauth("Authentication required.");
+    return conn->raw(Formatter::multiply(Formatter::noauth("Authentication required."), transaction.expectedResponses()));
   }
 
   return shard->dispatch(conn, transaction);
-- 
2.43.0


From 41b4bf0efb29d1d134c57e827268de3a58f53c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 56/74] fix: large first requests were refused on connections
 which need no authentication

---
 src/Connection.cc  | 2 +-
 src/Dispatcher.hh  | 6 ++++++
 src/QuarkDBNode.hh | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 4b3ab84..254f198 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -283,7 +283,7 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       qdb_throw("should never reach here");
     }
 
-    LinkStatus status = parser.fetch(currentRequest, authorization);
+    LinkStatus status = parser.fetch(currentRequest, dispatcher->isAuthenticated(this));
     InternalFilter::process(currentRequest);
 
     if(status < 0) {
diff --git a/src/Dispatcher.hh b/src/Dispatcher.hh
index d6afdc2..a2411fd 100644
--- a/src/Dispatcher.hh
+++ b/src/Dispatcher.hh
@@ -39,6 +39,12 @@ public:
   virtual LinkStatus dispatch(Connection *conn, Transaction &multiOp) = 0;
   virtual void notifyDisconnect(Connection *conn) = 0;
 
+  //----------------------------------------------------------------------------
+  // Is the given connection allowed to send large requests? Dispatchers
+  // without a notion of authentication trust everyone.
+  //----------------------------------------------------------------------------
+  virtual bool isAuthenticated(Connection *conn) const { return true; }
+
   RedisEncodedResponse handlePing(RedisRequest &req);
   RedisEncodedResponse handleConversion(RedisRequest &req);
   virtual ~Dispatcher() {}
diff --git a/src/QuarkDBNode.hh b/src/QuarkDBNode.hh
index b27d4af..014e3c4 100644
--- a/src/QuarkDBNode.hh
+++ b/src/QuarkDBNode.hh
@@ -70,7 +70,7 @@ public:
   }
 
 private:
-  bool isAuthenticated(Connection *conn) const;
+  virtual bool isAuthenticated(Connection *conn) const override final;
 
   std::unique_ptr<ShardDirectory> shardDirectoryOwnership;
   std::unique_ptr<Shard> shard;
-- 
2.43.0


From 5e0d8e393ff29cbc4811681419260d6a60475c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 57/74] fix: any ordinary write aborted a node running in
 recovery mode

---
 src/recovery/RecoveryDispatcher.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/recovery/RecoveryDispatcher.cc b/src/recovery/RecoveryDispatcher.cc
index 8f4012b..173bd1d 100644
--- a/src/recovery/RecoveryDispatcher.cc
+++ b/src/recovery/RecoveryDispatcher.cc
@@ -34,7 +34,8 @@ RecoveryDispatcher::RecoveryDispatcher(RecoveryEditor &ed) : editor(ed) {
 }
 
 LinkStatus RecoveryDispatcher::dispatch(Connection *conn, Transaction &tx) {
-  qdb_throw("Transactions not supported in RecoveryDispatcher");
+  // Pipelined writes end up here as well
+  return conn->raw(Formatter::multiply(Formatter::err("remember we're running in recovery mode, transactions and writes are not available"), tx.expectedResponses()));
 }
 
 LinkStatus RecoveryDispatcher::dispatch(Connection *conn, RedisRequest &req) {
-- 
2.43.0


From 3ad16f730d97d186098de459ade510e3195bd60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:42 +0000
Subject: [PATCH 58/74] fix: subscriptions purged by the server were still
 included in the reported count

---
 src/Connection.hh       |  2 +-
 src/pubsub/Publisher.cc | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Connection.hh b/src/Connection.hh
index 5a1bfb6..3630549 100644
--- a/src/Connection.hh
+++ b/src/Connection.hh
@@ -68,7 +68,7 @@ public:
   LogIndex dispatchPending(RedisDispatcher *dispatcher, LogIndex commitIndex);
   bool appendIfAttached(RedisEncodedResponse &&raw);
   bool appendIfAttachedNoLock(RedisEncodedResponse &&raw);
-  size_t subscriptions = 0u;
+  std::atomic<size_t> subscriptions {0u};
 
   void subscribe(const std::string &item);
   void psubscribe(const std::string &item);
diff --git a/src/pubsub/Publisher.cc b/src/pubsub/Publisher.cc
index b9737b8..0918220 100644
--- a/src/pubsub/Publisher.cc
+++ b/src/pubsub/Publisher.cc
@@ -58,13 +58,15 @@ Publisher::~Publisher() {
 
 void Publisher::purgeListeners(RedisEncodedResponse resp) {
   for(auto it = channelSubscriptions.getFullIterator(); it.valid(); it.next()) {
-    it.getValue()->appendIfAttached(RedisEncodedResponse(resp));
-    it.erase();
+    std::shared_ptr<PendingQueue> queue = it.getValue();
+    queue->appendIfAttached(RedisEncodedResponse(resp));
+    if(it.erase()) queue->subscriptions--;
   }
 
   for(auto it = patternMatcher.getFullIterator(); it.valid(); it.next()) {
-    it.getValue()->appendIfAttached(RedisEncodedResponse(resp));
-    it.erase();
+    std::shared_ptr<PendingQueue> queue = it.getValue();
+    queue->appendIfAttached(RedisEncodedResponse(resp));
+    if(it.erase()) queue->subscriptions--;
   }
 }
 
-- 
2.43.0


From 46d3d560c5cc46f6f855ea8eabf28fde1b28e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 59/74] fix: an election with both a quorum of votes and a veto
 deadlocked on the log mutex

---
 src/raft/RaftUtils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index b19a0a1..a088f42 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -64,7 +64,8 @@ ElectionOutcome RaftElection::performPreVote(RaftVoteRequest votereq, RaftState
     registry.registerVote(it->first, it->second, deadline);
   }
 
-  qdb_info(registry.describeOutcome());
+  std::string description = registry.describeOutcome();
+  qdb_info(description);
   return registry.determineOutcome();
 }
 
@@ -118,7 +119,8 @@ ElectionOutcome RaftElection::perform(RaftVoteRequest votereq, RaftState &state,
   registry.observeTermsAndLeases(state, lease, broadcastTimepoint);
 
   ElectionOutcome outcome = registry.determineOutcome();
-  qdb_info(registry.describeOutcome());
+  std::string description = registry.describeOutcome();
+  qdb_info(description);
 
   if(outcome == ElectionOutcome::kElected) {
     if(state.ascend(votereq.term)) {
-- 
2.43.0


From e71d047f643d7cdded1bfc9a5d5e2b5996352e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 60/74] fix: a client-packed transaction without any commands
 crashed the server

---
 src/Connection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 254f198..4a5ee02 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -319,7 +319,7 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       if(multiHandler.inMulti()) {
         this->err("Only reads and writes allowed within MULTI/EXEC blocks.");
       }
-      else if(!tx.deserialize(currentRequest) || !InternalFilter::permitted(tx) || tx.expectedResponses() == 0) {
+      else if(!tx.deserialize(currentRequest) || tx.empty() || !InternalFilter::permitted(tx) || tx.expectedResponses() == 0) {
         this->err("malformed transaction");
       }
       else {
-- 
2.43.0


From ff27dcc6a88d2264e8da73f8b0abae10240a6620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 61/74] fix: truncated or inconsistent append-entries requests
 were read out of bounds

---
 src/raft/RaftCommon.hh | 8 +++++++-
 src/raft/RaftUtils.cc  | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftCommon.hh b/src/raft/RaftCommon.hh
index 138ad10..c80a7d8 100644
--- a/src/raft/RaftCommon.hh
+++ b/src/raft/RaftCommon.hh
@@ -79,20 +79,26 @@ struct RaftEntry {
     return ss.str();
   }
 
-  static void deserialize(RaftEntry &entry, std::string_view data) {
+  // Returns false if data is not a valid serialized entry.
+  static bool deserialize(RaftEntry &entry, std::string_view data) {
     entry.request.clear();
+    if(data.size() < sizeof(term)) return false;
     entry.term = fetch_int_from_string(data.data());
 
     const char *pos = data.data() + sizeof(term);
     const char *end = data.data() + data.size();
 
     while(pos < end) {
+      if(end - pos < (int64_t) sizeof(int64_t)) return false;
       int64_t len = fetch_int_from_string(pos);
       pos += sizeof(len);
 
+      if(len < 0 || end - pos < len) return false;
       entry.request.emplace_back(pos, len);
       pos += len;
     }
+
+    return true;
   }
 
   static int64_t fetchTerm(std::string_view data) {
diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index a088f42..9cc6a83 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -152,12 +152,12 @@ bool RaftParser::appendEntries(RedisRequest &&source, RaftAppendEntriesRequest &
   dest.commitIndex = binaryStringToInt(source[2].data() + 3*sizeof(int64_t) );
   nreqs            = binaryStringToInt(source[2].data() + 4*sizeof(int64_t) );
 
-  if((int) source.size() != 3 + nreqs) return false;
+  if(nreqs < 0 || (int64_t) source.size() - 3 != nreqs) return false;
   dest.entries.resize(nreqs);
 
   int64_t index = 3;
   for(int64_t i = 0; i < nreqs; i++) {
-    RaftEntry::deserialize(dest.entries[i], source[index]);
+    if(!RaftEntry::deserialize(dest.entries[i], source[index])) return false;
     index++;
   }
 
-- 
2.43.0


From db21199b86e0af96e1409c66124810bd15d1b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 62/74] fix: a follower marked entries as committed which the
 leader had not verified yet

---
 src/raft/RaftDispatcher.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index efc2d76..7de22a3 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -565,7 +565,17 @@ RaftAppendEntriesResponse RaftDispatcher::appendEntries(RaftAppendEntriesRequest
     }
   }
 
-  journal.setCommitIndex(std::min(journal.getLogSize()-1, req.commitIndex));
+  //----------------------------------------------------------------------------
+  // We've only verified our log up to the last entry contained in this request:
+  // anything we have after that could still be inconsistent with the leader.
+  // (An old, delayed request could also contain an old commitIndex)
+  //----------------------------------------------------------------------------
+  LogIndex verifiedUpTo = req.prevIndex + LogIndex(req.entries.size());
+  LogIndex newCommitIndex = std::min(verifiedUpTo, req.commitIndex);
+  if(journal.getCommitIndex() < newCommitIndex) {
+    journal.setCommitIndex(newCommitIndex);
+  }
+
   warnIfLagging(req.commitIndex);
   return {snapshot->term, journal.getLogSize(), true, ""};
 }
-- 
2.43.0


From dd264e677b9fd313bb494397cc70557984f6759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 63/74] fix: retrying a write after losing leadership
 deadlocked, if leadership was regained in the meantime

---
 src/raft/RaftDispatcher.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 7de22a3..0c764d9 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -436,7 +436,7 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
   LeaseFilter::transform(tx, txTimestamp);
 
   // send request to the write tracker
-  std::scoped_lock lock(raftCommand);
+  std::unique_lock<std::mutex> lock(raftCommand);
 
   LogIndex index = journal.getLogSize();
 
@@ -445,7 +445,9 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
     // - We retrieved the state snapshot.
     // - The raft term was changed in the meantime, we lost leadership.
     // - The journal rejected the entry due to term mismatch.
-    // Let's simply retry.
+    // Let's simply retry - without holding the lock, as we might have been
+    // elected again in the meantime.
+    lock.unlock();
     return this->service(conn, tx);
   }
 
-- 
2.43.0


From a65e3851159e51a803133958f26f0ed593b94a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 64/74] fix: promoting a server which is not replicated to
 crashed the leader

---
 src/raft/RaftDispatcher.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 0c764d9..0896c85 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -83,7 +83,12 @@ bool RaftDispatcher::checkIfNodeRemovalAcceptable(const RaftServer &srv) {
   // look like after the node removal
 
   ReplicationStatus replicationStatus = replicator.getStatus();
-  replicationStatus.removeReplicas(journal.getMembership().observers);
+  for(const RaftServer &observer : journal.getMembership().observers) {
+    // An observer might not be tracked yet, if we've just been elected
+    if(replicationStatus.contains(observer)) {
+      replicationStatus.removeReplica(observer);
+    }
+  }
 
   ReplicaStatus leaderStatus = { state.getMyself(), true, journal.getLogSize() };
   replicationStatus.addReplica(leaderStatus);
@@ -287,7 +292,7 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       }
       else if(req.getCommand() == RedisCommand::RAFT_PROMOTE_OBSERVER) {
         ReplicationStatus replicationStatus = replicator.getStatus();
-        if(!replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
+        if(!replicationStatus.contains(srv) || !replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
           return conn->err("membership update blocked, observer is not up-to-date");
         }
 
-- 
2.43.0


From 7398b4a8a2104062a39cf19b012f89169251fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 65/74] fix: a membership change right before the replicator
 gets activated, or after, crashed the leader

---
 src/raft/RaftReplicator.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 416a630..3980ee2 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -666,6 +666,13 @@ static std::vector<RaftServer> all_servers_except_myself(const std::vector<RaftS
 }
 
 void RaftReplicator::reconfigure() {
+  std::scoped_lock lock(mtx);
+
+  if(!snapshot) {
+    // Not active: activation will read the membership again.
+    return;
+  }
+
   RaftMembership membership = journal.getMembership();
   qdb_info("Reconfiguring replicator for membership epoch " << membership.epoch);
 
-- 
2.43.0


From f4caabd254526d2eea8a1de5648921d23c111b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 66/74] fix: an unexpected reply without text crashed the
 replicator

---
 src/raft/RaftReplicator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 3980ee2..9f49ad4 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -141,7 +141,7 @@ static AppendEntriesReception retrieve_response(
   if(rep == nullptr) return AppendEntriesReception::kError;
 
   if(!RaftParser::appendEntriesResponse(rep, resp)) {
-    if(strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
+    if(rep->type != REDIS_REPLY_ERROR || strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
       // unexpected response
       qdb_critical("cannot parse response from append entries");
     }
@@ -161,7 +161,7 @@ static bool retrieve_heartbeat_reply(std::future<redisReplyPtr> &fut, RaftHeartb
   if(rep == nullptr) return false;
 
   if(!RaftParser::heartbeatResponse(rep, resp)) {
-    if(strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
+    if(rep->type != REDIS_REPLY_ERROR || strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
       // unexpected response
       qdb_critical("cannot parse response from heartbeat");
     }
-- 
2.43.0


From 916d1a7192bca85a01e69b0c4831147931b3df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 67/74] fix: RAFT-FETCH-LAST with a large count returned the
 wrong entries

---
 src/raft/RaftJournal.cc | 2 +-
 src/raft/RaftJournal.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index f67ee4a..d4d02d2 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -591,7 +591,7 @@ rocksdb::Status RaftJournal::fetch(LogIndex index, RaftSerializedEntry &data) {
   return db->Get(rocksdb::ReadOptions(), encodeEntryKey(index), &data);
 }
 
-void RaftJournal::fetch_last(int last, std::vector<RaftEntry> &entries) {
+void RaftJournal::fetch_last(LogIndex last, std::vector<RaftEntry> &entries) {
   LogIndex endIndex = logSize;
   LogIndex startIndex = endIndex - last;
   if(startIndex < logStart) startIndex = logStart;
diff --git a/src/raft/RaftJournal.hh b/src/raft/RaftJournal.hh
index 430ab3a..2956c79 100644
--- a/src/raft/RaftJournal.hh
+++ b/src/raft/RaftJournal.hh
@@ -71,7 +71,7 @@ public:
   rocksdb::Status fetch(LogIndex index, RaftEntry &entry);
   rocksdb::Status fetch(LogIndex index, RaftTerm &term);
   rocksdb::Status fetch(LogIndex index, RaftSerializedEntry &data);
-  void fetch_last(int lastEntries, std::vector<RaftEntry> &entry);
+  void fetch_last(LogIndex lastEntries, std::vector<RaftEntry> &entry);
 
   void fetch_or_die(LogIndex index, RaftEntry &entry);
   void fetch_or_die(LogIndex index, RaftTerm &term);
-- 
2.43.0


From f7e2b9eb49d558b3489923a05bf1ac03905f0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:31 +0000
Subject: [PATCH 68/74] fix: a resilvering which had already been declared as
 failed carried on copying

---
 src/raft/RaftResilverer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft/RaftResilverer.cc b/src/raft/RaftResilverer.cc
index 321a277..be3d235 100644
--- a/src/raft/RaftResilverer.cc
+++ b/src/raft/RaftResilverer.cc
@@ -185,6 +185,7 @@ void RaftResilverer::main(ThreadAssistant &assistant) {
   size_t totalFiles = 0;
   if(!countFilesInDirectoryRecursively(shardSnapshot->getPath(), err, totalFiles)) {
     setStatus(ResilveringState::FAILED, err);
+    return;
   }
 
   mFilesTotal = totalFiles;
-- 
2.43.0


From 364cfd8b1a5295515325a417564669024f4161f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:10 +0000
Subject: [PATCH 69/74] fix: a new leader could change the membership before
 any entry of its own term was committed

---
 src/raft/RaftDispatcher.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 0896c85..a1bda28 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -277,6 +277,14 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       if(snapshot->status != RaftStatus::LEADER) return conn->err("not a leader");
       if(srv == state.getMyself()) return conn->err("cannot perform membership changes on current leader");
 
+      // A previous leader could have left behind a membership change which is
+      // still in progress somewhere else. Until an entry of our own term is
+      // committed, we could be creating a second one based on a different
+      // configuration, and the two quorums might not overlap.
+      if(journal.getCommitIndex() < snapshot->leadershipMarker) {
+        return conn->err("membership update blocked, leadership marker has not been committed yet");
+      }
+
       std::string err;
       bool rc;
 
-- 
2.43.0


From b6a31da9ee06efbaac7861d85cd9a361651235fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:40 +0000
Subject: [PATCH 70/74] fix: a follower in conflict with the start of a trimmed
 journal was never resilvered

---
 src/raft/RaftReplicator.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 9f49ad4..5a280ba 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -480,6 +480,7 @@ void RaftReplicaTracker::main() {
 
   bool warnStreamingHiccup = false;
   bool needResilvering = false;
+  bool conflictAtStart = false;
   while(shutdown == 0 && state.isSnapshotCurrent(snapshot.get())) {
 
     if(warnStreamingHiccup) {
@@ -536,12 +537,16 @@ void RaftReplicaTracker::main() {
     if(snapshot->term < resp.term) continue;
     lastContact.heartbeat(contact);
 
-    // Check: Does the target need resilvering?
-    if(resp.logSize <= journal.getLogStart()) {
-      nextIndex = journal.getLogSize();
+    // Check: Does the target need resilvering? Either it's too far behind, or
+    // it's in conflict with the very first entry I still have. In the latter case,
+    // keep probing that same entry, there's no earlier one to agree on.
+    conflictAtStart = !resp.outcome && nextIndex-1 <= journal.getLogStart() && nextIndex <= resp.logSize;
+
+    if(resp.logSize <= journal.getLogStart() || conflictAtStart) {
+      if(!conflictAtStart) nextIndex = journal.getLogSize();
 
       if(!needResilvering) {
-        qdb_event("Unable to perform replication on " << target.toString() << ", it's too far behind (its logsize: " << resp.logSize << ") and my journal starts at " << journal.getLogStart() << ".");
+        qdb_event("Unable to perform replication on " << target.toString() << ", it's too far behind or in conflict (its logsize: " << resp.logSize << ") and my journal starts at " << journal.getLogStart() << ".");
         needResilvering = true;
         payloadLimit = 1;
       }
-- 
2.43.0


From 77bf16e922ec68fd3a378b3ab3b4915780d57765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 71/74] fix: entries a follower already had were never counted
 as replicated until the next write

---
 src/raft/RaftReplicator.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 5a280ba..d145707 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -330,6 +330,13 @@ bool RaftReplicaTracker::sendPayload(RaftTalker &talker, LogIndex nextIndex, int
 
   payloadSize = entries.size();
 
+  if(entries.empty()) {
+    // With an empty payload, a positive reply still acknowledges everything up
+    // to the previous entry. The target might already have it without us
+    // knowing: through resilvering, or if an earlier reply was lost.
+    lastEntryTerm = prevTerm;
+  }
+
   contact = std::chrono::steady_clock::now();
   reply = talker.appendEntries(
     snapshot->term,
-- 
2.43.0


From 974e199d696d7e7f7de5b6c41edacecf208e403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:38 +0000
Subject: [PATCH 72/74] fix: the cluster could stay leaderless when the node
 with the best journal lagged behind in terms

Pre-vote replies carry the term of the voter, but it was ignored: a node with an
older term than the others kept being refused, while vetoing nobody and granting
nobody with a shorter journal.
---
 src/raft/RaftUtils.cc        |  2 ++
 src/raft/RaftVoteRegistry.cc | 21 +++++++++++++++++++++
 src/raft/RaftVoteRegistry.hh |  4 ++++
 3 files changed, 27 insertions(+)

diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index 9cc6a83..9a3a8e8 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -64,6 +64,8 @@ ElectionOutcome RaftElection::performPreVote(RaftVoteRequest votereq, RaftState
     registry.registerVote(it->first, it->second, deadline);
   }
 
+  registry.observeNewerTerms(state);
+
   std::string description = registry.describeOutcome();
   qdb_info(description);
   return registry.determineOutcome();
diff --git a/src/raft/RaftVoteRegistry.cc b/src/raft/RaftVoteRegistry.cc
index 5ff6af6..47431b2 100644
--- a/src/raft/RaftVoteRegistry.cc
+++ b/src/raft/RaftVoteRegistry.cc
@@ -250,4 +250,25 @@ void RaftVoteRegistry::observeTermsAndLeases(RaftState &state, RaftLease &lease,
   }
 }
 
+//------------------------------------------------------------------------------
+// Observe newer terms reported in the replies to a pre-vote round.
+//
+// A node which lags behind in terms gets refused in pre-vote rounds. Unless it
+// catches up with the others, it will keep being refused - if it's also the one
+// with the most up-to-date journal, no-one in the cluster can be elected.
+//------------------------------------------------------------------------------
+void RaftVoteRegistry::observeNewerTerms(RaftState &state) const {
+  for(auto it = mContents.begin(); it != mContents.end(); it++) {
+    const SingleVote& sv = it->second;
+
+    if(sv.netError || sv.parseError) {
+      continue;
+    }
+
+    if(sv.resp.term >= mTerm) {
+      state.observed(sv.resp.term, {});
+    }
+  }
+}
+
 }
\ No newline at end of file
diff --git a/src/raft/RaftVoteRegistry.hh b/src/raft/RaftVoteRegistry.hh
index 38a8abe..95946b0 100644
--- a/src/raft/RaftVoteRegistry.hh
+++ b/src/raft/RaftVoteRegistry.hh
@@ -103,6 +103,10 @@ public:
   void observeTermsAndLeases(RaftState &state, RaftLease &lease,
     std::chrono::steady_clock::time_point broadcastTimepoint);
 
+  //----------------------------------------------------------------------------
+  // Observe newer terms reported in the replies to a pre-vote round
+  //----------------------------------------------------------------------------
+  void observeNewerTerms(RaftState &state) const;
 
 private:
   RaftTerm mTerm;
-- 
2.43.0


From a88e235825a2a015f9d5af06be89e5e1143032b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:53 +0000
Subject: [PATCH 73/74] fix: a deposed leader aborted if its journal was
 truncated while preparing entries for a replica

---
 src/raft/RaftReplicator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index d145707..a536be1 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -94,6 +94,12 @@ bool RaftReplicaTracker::buildPayload(LogIndex nextIndex, int64_t payloadLimit,
   std::vector<std::string> &entries, RaftTerm &lastEntryTerm) {
 
   int64_t payloadSize = std::min(payloadLimit, journal.getLogSize() - nextIndex);
+  if(payloadSize < 0) {
+    // A new leader has truncated our journal in the meantime
+    qdb_warn("Journal has become shorter than " << nextIndex << " entries .. aborting building payload");
+    return false;
+  }
+
   entries.resize(payloadSize);
 
   RaftJournal::Iterator iterator = journal.getIterator(nextIndex, true);
-- 
2.43.0


From 131dc6ed31bed9e24c79bfdbb23165356a67df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:53 +0000
Subject: [PATCH 74/74] fix: leader resigned if a replica which had been away
 for long came back while the journal was being trimmed

---
 src/raft/RaftJournal.cc    |  4 +++-
 src/raft/RaftReplicator.cc | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index d4d02d2..7487980 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -454,8 +454,10 @@ void RaftJournal::trimUntil(LogIndex newLogStart) {
   }
 
   THROW_ON_ERROR(batch.Put(KeyConstants::kJournal_LogStart, intToBinaryString(newLogStart)));
-  commitBatch(batch);
+
+  // Whoever fails to read an entry below must be able to tell it's been trimmed
   logStart = newLogStart;
+  commitBatch(batch);
 }
 
 RaftServer RaftJournal::getVotedFor() {
diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index a536be1..5553bdc 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -304,6 +304,11 @@ bool RaftReplicaTracker::sendPayload(RaftTalker &talker, LogIndex nextIndex, int
   RaftTerm prevTerm;
 
   if(!journal.fetch(nextIndex-1, prevTerm).ok()) {
+    if(nextIndex-1 < journal.getLogStart()) {
+      qdb_warn("Log entry " << nextIndex-1 << " has just been trimmed, unable to send to " << target.toString());
+      return false;
+    }
+
     qdb_critical("unable to fetch log entry " << nextIndex-1 << " when tracking " << target.toString() << ". My log start: " << journal.getLogStart());
     state.observed(snapshot->term+1, {});
     return false;
@@ -330,6 +335,11 @@ bool RaftReplicaTracker::sendPayload(RaftTalker &talker, LogIndex nextIndex, int
 
   std::vector<RaftSerializedEntry> entries;
   if(!buildPayload(nextIndex, payloadLimit, entries, lastEntryTerm)) {
+    if(nextIndex < journal.getLogStart()) {
+      qdb_warn("Log entry " << nextIndex << " has just been trimmed, unable to send to " << target.toString());
+      return false;
+    }
+
     state.observed(snapshot->term+1, {});
     return false;
   }
@@ -524,6 +534,11 @@ void RaftReplicaTracker::main() {
     RaftTerm lastEntryTerm;
 
     if(!sendPayload(talker, nextIndex, payloadLimit, fut, contact, payloadSize, lastEntryTerm)) {
+      if(state.isSnapshotCurrent(snapshot.get()) && nextIndex <= journal.getLogStart()) {
+        // Trimmed just now, start over from the end of the journal
+        continue;
+      }
+
       qdb_warn("Unexpected error when sending payload to target " << target.toString() << ", halting replication");
       break;
     }
-- 
2.43.0

