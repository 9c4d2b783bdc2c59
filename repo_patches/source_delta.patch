From 5fb305a2e701994b433229ef865b69e0a23d2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 01/44] fix: LocalityFieldLocator::getPrefix must not extend
 past the end of the key buffer

---
 src/storage/KeyLocators.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/KeyLocators.hh b/src/storage/KeyLocators.hh
index b1ead2a..c4d8974 100644
--- a/src/storage/KeyLocators.hh
+++ b/src/storage/KeyLocators.hh
@@ -205,7 +205,8 @@ public:
   }
 
   std::string_view getPrefix() {
-    return std::string_view(keyBuffer.data(), keyPrefixSize + localityPrefixSize);
+    // localityPrefixSize already counts the bytes of the key prefix.
+    return std::string_view(keyBuffer.data(), localityPrefixSize != 0 ? localityPrefixSize : keyPrefixSize);
   }
 
 private:
-- 
2.43.0


From 7c15774a61df01682e2fcf377d1ab20ca3ceb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 02/44] fix: SmartBuffer::expand to exactly the current
 capacity must not free the buffer in use

---
 src/utils/SmartBuffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/SmartBuffer.hh b/src/utils/SmartBuffer.hh
index f5bc06d..1d777b7 100644
--- a/src/utils/SmartBuffer.hh
+++ b/src/utils/SmartBuffer.hh
@@ -63,7 +63,7 @@ public:
   void expand(size_t size) {
     qdb_assert(realSize <= size);
 
-    if(size < containerSize()) {
+    if(size <= containerSize()) {
       // Easy path, no copying necessary
       realSize = size;
       return;
-- 
2.43.0


From b45f7ba913a1c79aa439a9ece69020a7c146b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 03/44] fix: a key ending in the escape character and an empty
 field must be decoded

---
 src/storage/ReverseLocator.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storage/ReverseLocator.hh b/src/storage/ReverseLocator.hh
index d5e6d4b..8466b6c 100644
--- a/src/storage/ReverseLocator.hh
+++ b/src/storage/ReverseLocator.hh
@@ -36,13 +36,16 @@ inline size_t extractPrefix(std::string_view dkey, std::string &key) {
   for(size_t i = 0; i < dkey.size(); i++) {
     // Hash?
     if(dkey[i] == '#') {
+      // Nothing follows this hash: it cannot be part of a boundary.
+      if(i+1 >= dkey.size()) break;
+
       // Is this the boundary?
       if(dkey[i+1] == '#' && dkey[i-1] != '|') {
         // Yes, our work here is done.
         return i+2;
       }
 
-      if(dkey[i+1] == '#' && dkey[i-1] == '|' && i+2 < dkey.size() && dkey[i+2] != '#') {
+      if(dkey[i+1] == '#' && dkey[i-1] == '|' && (i+2 >= dkey.size() || dkey[i+2] != '#')) {
         return i+2;
       }
 
-- 
2.43.0


From 48b5dfb4393db825b8a1867da58320673136f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:18 +0000
Subject: [PATCH 04/44] fix: fall back to the default trimming settings when
 the stored ones cannot be parsed

getTrimmingConfig reported the problem, and then returned an uninitialized
TrimmingConfig: the trimmer would remove entries according to whatever
happened to be on the stack.
---
 src/raft/RaftConfig.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft/RaftConfig.cc b/src/raft/RaftConfig.cc
index 92f573b..8966ef3 100644
--- a/src/raft/RaftConfig.cc
+++ b/src/raft/RaftConfig.cc
@@ -98,6 +98,7 @@ TrimmingConfig RaftConfig::getTrimmingConfig() {
   TrimmingConfig ret;
   if(!ret.parse(trimConfig)) {
     qdb_misconfig("Unable to parse trimming configuration key: " << kTrimConfigKey << " => " << trimConfig);
+    return { 50000000, 200000 };
   }
 
   return ret;
-- 
2.43.0


From 2664f7a807262d51c94c9eab89146f4716fc0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:41 +0000
Subject: [PATCH 05/44] fix: smove with equal source and destination corrupted
 the recorded set size

---
 src/StateMachine.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 491d64d..5e0dadc 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -925,6 +925,14 @@ rocksdb::Status StateMachine::smove(StagingArea &stagingArea, std::string_view s
   WriteOperation operation1(stagingArea, source, KeyType::kSet);
   if(!operation1.valid()) return wrong_type();
 
+  if(source == destination) {
+    // Moving an element onto itself changes nothing - two operations on the
+    // same key would disagree about its size.
+    outcome = operation1.fieldExists(element) ? 1 : 0;
+    operation1.finalize(operation1.keySize());
+    return rocksdb::Status::OK();
+  }
+
   WriteOperation operation2(stagingArea, destination, KeyType::kSet);
   if(!operation2.valid()) {
     operation1.finalize(operation1.keySize());
-- 
2.43.0


From 186ac0d3f7c1f30f8829e5b0c447dc75d440636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:15 +0000
Subject: [PATCH 06/44] fix: parseInt64 accepted an empty string as zero

---
 src/raft/RaftDispatcher.cc | 4 ++--
 src/utils/ParseUtils.hh    | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index efc2d76..63c8295 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -324,8 +324,8 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
         return conn->err(args.error);
       }
 
-      LogIndex cursor;
-      if(!ParseUtils::parseInt64(args.cursor, cursor)) {
+      LogIndex cursor = 0;
+      if(!args.cursor.empty() && !ParseUtils::parseInt64(args.cursor, cursor)) {
         return conn->err(SSTR("invalid cursor: " << args.cursor));
       }
 
diff --git a/src/utils/ParseUtils.hh b/src/utils/ParseUtils.hh
index 3d9e036..62fbe59 100644
--- a/src/utils/ParseUtils.hh
+++ b/src/utils/ParseUtils.hh
@@ -44,6 +44,8 @@ inline std::vector<std::string> split(std::string data, const std::string &token
 }
 
 inline bool parseInt64(std::string_view str, int64_t &ret) {
+  if(str.empty()) return false;
+
   char *endptr = NULL;
   ret = strtoll(str.data(), &endptr, 10);
   if(endptr != str.data() + str.size() || ret == LLONG_MIN || ret == LONG_LONG_MAX) {
-- 
2.43.0


From 328a0a65bacaaedb8bc3be30e036c0276bd9b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:30 +0000
Subject: [PATCH 07/44] fix: lhscan with a hint pattern skipped hints after a
 cursor or containing '#'

---
 src/StateMachine.cc | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 5e0dadc..bd3353f 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -722,35 +722,37 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
   // Any rocksdb keys we touch must have this prefix.
   size_t keyPrefixSize = locator.toView().size();
   std::string requiredPrefix(locator.toView());
+
+  if(!patternPrefix.empty()) {
+    locator.resetHint(patternPrefix);
+    requiredPrefix = locator.toView();
+
+    if(patternPrefix.size() != matchloc.size()) {
+      // Pattern continues past the prefix: the hint does not end here, drop
+      // the "##" boundary.
+      requiredPrefix.resize(requiredPrefix.size() - 2);
+    }
+  }
+
   std::string_view scanStart = requiredPrefix;
 
   if(!cursor.empty()) {
     // Decompose cursor into hint + field.
     EscapedPrefixExtractor extractor;
-    if(!extractor.parse(cursor)) {
+    if(!extractor.parse(cursor) || extractor.getOriginalPrefix().empty()) {
       return malformed("invalid cursor");
     }
 
     cursorHint = extractor.getOriginalPrefix();
     cursorField = extractor.getRawSuffix();
 
-    // We start from the given hint + field.
+    // We start from the given hint + field, but still go through all hints
+    // that match.
     locator.resetHint(cursorHint);
-
-    if(!patternPrefix.empty()) {
-      requiredPrefix = locator.toView();
-    }
-
     locator.resetField(cursorField);
-    scanStart = locator.toView();
-  }
-  else if(!patternPrefix.empty()) {
-    locator.resetHint(patternPrefix);
-    requiredPrefix += patternPrefix;
-    scanStart = locator.toView();
 
-    if(patternPrefix.size() != matchloc.size()) {
-      scanStart.remove_suffix(2);
+    if(requiredPrefix < locator.toView()) {
+      scanStart = locator.toView();
     }
   }
 
-- 
2.43.0


From d06bf71073d8e505cfa838abfd802cd93f46a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:30 +0000
Subject: [PATCH 08/44] fix: scan accepted a zero count spelled 00, which never
 makes progress

---
 src/utils/CommandParsing.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/CommandParsing.hh b/src/utils/CommandParsing.hh
index 284f805..1f62baa 100644
--- a/src/utils/CommandParsing.hh
+++ b/src/utils/CommandParsing.hh
@@ -79,6 +79,12 @@ inline ScanCommandArguments parseScanCommand(const RedisRequest::const_iterator
         args.error = "value is not an integer or out of range";
         return args;
       }
+
+      // Another spelling of zero, a scan with it would never make progress.
+      if(args.count <= 0) {
+        args.error = "syntax error";
+        return args;
+      }
     }
     else if(caseInsensitiveEquals(*pos, "match") && supportMatch) {
       args.match = *(pos+1);
-- 
2.43.0


From 33f7ba4aef8e03b50be07f06be286bc59843c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:31 +0000
Subject: [PATCH 09/44] fix: match configuration options by their whole name

---
 src/Configuration.cc | 20 ++++++++++----------
 src/Configuration.hh |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index e8cbb92..552b549 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -135,34 +135,34 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
     bool success = false;
     std::string buffer;
 
-    if(StringUtils::startsWith("mode", current)) {
+    if(current == "mode") {
       success = fetchSingle(reader, buffer) && parseMode(buffer, out.mode);
     }
-    else if(StringUtils::startsWith(current, "database")) {
+    else if(current == "database") {
       success = fetchSingle(reader, out.database);
     }
-    else if(StringUtils::startsWith(current, "myself")) {
+    else if(current == "myself") {
       success = fetchSingle(reader, buffer) && parseServer(buffer, out.myself);
     }
-    else if(StringUtils::startsWith(current, "trace")) {
+    else if(current == "trace") {
       success = fetchSingle(reader, buffer) && parseTraceLevel(buffer, out.trace);
     }
-    else if(StringUtils::startsWith(current, "certificate")) {
+    else if(current == "certificate") {
       success = fetchSingle(reader, out.certificatePath);
     }
-    else if(StringUtils::startsWith(current, "certificate_key")) {
+    else if(current == "certificate_key") {
       success = fetchSingle(reader, out.certificateKeyPath);
     }
-    else if(StringUtils::startsWith(current, "write_ahead_log")) {
+    else if(current == "write_ahead_log") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.writeAheadLog);
     }
-    else if(StringUtils::startsWith(current, "password_file")) {
+    else if(current == "password_file") {
       success = fetchSingle(reader, out.passwordFilePath);
     }
-    else if(StringUtils::startsWith(current, "password")) {
+    else if(current == "password") {
       success = fetchSingle(reader, out.password);
     }
-    else if(StringUtils::startsWith(current, "require_password_for_localhost")) {
+    else if(current == "require_password_for_localhost") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.requirePasswordForLocalhost);
     }
     else {
diff --git a/src/Configuration.hh b/src/Configuration.hh
index 6bf5391..917c41e 100644
--- a/src/Configuration.hh
+++ b/src/Configuration.hh
@@ -75,7 +75,7 @@ public:
 
   std::string extractPasswordOrDie() const;
 private:
-  Mode mode;
+  Mode mode = Mode::standalone;
   std::string database;
   TraceLevel trace = TraceLevel::info;
   std::string certificatePath;
-- 
2.43.0


From 58b36d09db8829c61ef037085a11f9d221e08b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:35 +0000
Subject: [PATCH 10/44] fix: refuse malformed serialized transactions instead
 of reading past their end

---
 src/redis/Transaction.cc | 58 ++++++++++++++++++++++++++--------------
 src/redis/Transaction.hh |  1 +
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/redis/Transaction.cc b/src/redis/Transaction.cc
index 8bc55c3..4e128d9 100644
--- a/src/redis/Transaction.cc
+++ b/src/redis/Transaction.cc
@@ -92,11 +92,9 @@ bool Transaction::deserialize(const RedisRequest &req) {
 
   if(!this->deserialize(req[1])) return false;
 
-  if(req.getCommand() == RedisCommand::TX_READONLY) {
-    qdb_assert(!this->containsWrites());
-  }
-  else {
-    qdb_assert(this->containsWrites());
+  if(this->containsWrites() != (req.getCommand() == RedisCommand::TX_READWRITE)) {
+    this->clear();
+    return false;
   }
 
   this->setPhantom(phantom);
@@ -105,33 +103,53 @@ bool Transaction::deserialize(const RedisRequest &req) {
 
 bool Transaction::deserialize(const PinnedBuffer &src) {
   qdb_assert(requests.empty());
-  if(src.empty()) return false;
 
-  const char *pos = src.data();
-  int64_t totalRequests = binaryStringToInt(pos);
-  pos += sizeof(int64_t);
-  size_t bytesConsumed = sizeof(int64_t);
+  if(!deserializeContents(src)) {
+    // Don't leave half of a malformed transaction behind
+    requests.clear();
+    hasWrites = false;
+    return false;
+  }
+
+  return true;
+}
+
+static bool fetchInteger(const PinnedBuffer &src, size_t &bytesConsumed, int64_t &value) {
+  if(src.size() - bytesConsumed < sizeof(int64_t)) return false;
+  value = binaryStringToInt(src.data() + bytesConsumed);
+  bytesConsumed += sizeof(int64_t);
+  return value >= 0;
+}
+
+bool Transaction::deserializeContents(const PinnedBuffer &src) {
+  size_t bytesConsumed = 0;
 
-  requests.resize(totalRequests);
+  int64_t totalRequests;
+  if(!fetchInteger(src, bytesConsumed, totalRequests)) return false;
 
   for(int64_t i = 0; i < totalRequests; i++) {
-    int64_t totalParts = binaryStringToInt(pos);
-    pos += sizeof(int64_t);
-    bytesConsumed += sizeof(int64_t);
+    int64_t totalParts;
+    if(!fetchInteger(src, bytesConsumed, totalParts)) return false;
+
+    requests.emplace_back();
 
     for(int64_t part = 0; part < totalParts; part++) {
-      int64_t length = binaryStringToInt(pos);
-      pos += sizeof(int64_t);
-      bytesConsumed += sizeof(int64_t);
+      int64_t length;
+      if(!fetchInteger(src, bytesConsumed, length)) return false;
+      if(src.size() - bytesConsumed < (size_t) length) return false;
 
       requests[i].push_back(src.substr(bytesConsumed, length));
-      pos += (length * sizeof(char));
-      bytesConsumed += (length * sizeof(char));
+      bytesConsumed += length;
     }
+
+    if(requests[i].getCommandType() != CommandType::READ && requests[i].getCommandType() != CommandType::WRITE) {
+      return false;
+    }
+
     checkNthCommandForWrites(i);
   }
 
-  return true;
+  return bytesConsumed == src.size();
 }
 
 void Transaction::clear() {
diff --git a/src/redis/Transaction.hh b/src/redis/Transaction.hh
index 59b199a..fe582de 100644
--- a/src/redis/Transaction.hh
+++ b/src/redis/Transaction.hh
@@ -103,6 +103,7 @@ public:
 
 private:
   void checkNthCommandForWrites(int n = -1);
+  bool deserializeContents(const PinnedBuffer &src);
 
   bool hasWrites = false;
   bool phantom = false;
-- 
2.43.0


From e97e32c44d19f39b6377d17309ef87988d222d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:55 +0000
Subject: [PATCH 11/44] fix: apply all checks and filters to transactions
 serialized by clients

---
 src/Connection.cc           | 18 ++++++++++++++++--
 src/redis/InternalFilter.cc | 20 ++++++++++++++++++++
 src/redis/InternalFilter.hh |  7 +++++++
 3 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 5cef8d0..637f967 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -309,9 +309,23 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       continue;
     }
 
-    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE) {
+    // Transaction serialized by the client: Do not trust it. It has to go through
+    // the same checks and filters as one built through MULTI / EXEC.
+    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE || currentRequest.getCommand() == RedisCommand::TX_READONLY) {
       multiHandler.finalizePhantomTransaction(dispatcher, this);
-      dispatcher->dispatch(this, currentRequest);
+
+      if(multiHandler.active()) {
+        this->err("transactions can not be nested");
+        continue;
+      }
+
+      Transaction tx;
+      if(!tx.deserialize(currentRequest) || tx.isPhantom() || !InternalFilter::isPermitted(tx)) {
+        this->err("malformed transaction");
+        continue;
+      }
+
+      dispatcher->dispatch(this, tx);
       continue;
     }
 
diff --git a/src/redis/InternalFilter.cc b/src/redis/InternalFilter.cc
index 4465025..f56ffad 100644
--- a/src/redis/InternalFilter.cc
+++ b/src/redis/InternalFilter.cc
@@ -23,6 +23,7 @@
 
 #include "redis/InternalFilter.hh"
 #include "RedisRequest.hh"
+#include "redis/Transaction.hh"
 using namespace quarkdb;
 
 void InternalFilter::process(RedisRequest &req) {
@@ -39,3 +40,22 @@ void InternalFilter::process(RedisRequest &req) {
     }
   }
 }
+
+bool InternalFilter::isPermitted(const Transaction &tx) {
+  for(size_t i = 0; i < tx.size(); i++) {
+    switch(tx[i].getCommand()) {
+      case RedisCommand::TIMESTAMPED_LEASE_RELEASE:
+      case RedisCommand::TIMESTAMPED_LEASE_ACQUIRE:
+      case RedisCommand::TIMESTAMPED_LEASE_GET:
+      case RedisCommand::TX_READONLY:
+      case RedisCommand::TX_READWRITE: {
+        return false;
+      }
+      default: {
+        break;
+      }
+    }
+  }
+
+  return true;
+}
diff --git a/src/redis/InternalFilter.hh b/src/redis/InternalFilter.hh
index d3cb16b..5575fff 100644
--- a/src/redis/InternalFilter.hh
+++ b/src/redis/InternalFilter.hh
@@ -27,6 +27,7 @@
 namespace quarkdb {
 
 class RedisRequest;
+class Transaction;
 
 class InternalFilter {
 public:
@@ -37,6 +38,12 @@ public:
   // generated internally.
   //----------------------------------------------------------------------------
   static void process(RedisRequest &req);
+
+  //----------------------------------------------------------------------------
+  // Has a transaction which was serialized by an end-user been built only out
+  // of commands they could have issued themselves, one by one?
+  //----------------------------------------------------------------------------
+  static bool isPermitted(const Transaction &tx);
 };
 
 }
-- 
2.43.0


From dbdd82cec7e8bc37329c1a494cf0c2ff32e52caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:02 +0000
Subject: [PATCH 12/44] fix: one reply per batched request on unauthenticated
 connections

---
 src/QuarkDBNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 2b0d07a..7b01f7f 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -82,7 +82,7 @@ bool QuarkDBNode::isAuthenticated(Connection *conn) const {
 LinkStatus QuarkDBNode::dispatch(Connection *conn, Transaction &transaction) {
   // We need to be authenticated past this point. Are we?
   if(!isAuthenticated(conn)) {
-    return conn->noauth("Authentication required.");
+    return conn->raw(Formatter::multiply(Formatter::noauth("Authentication required."), transaction.expectedResponses()));
   }
 
   return shard->dispatch(conn, transaction);
-- 
2.43.0


From 34206d707cd7d76d8b61aee14283a7b4345423c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:02 +0000
Subject: [PATCH 13/44] fix: CLIENT without arguments

---
 src/QuarkDBNode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 7b01f7f..e593200 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -105,6 +105,8 @@ LinkStatus QuarkDBNode::dispatch(Connection *conn, RedisRequest &req) {
       return conn->raw(handlePing(req));
     }
     case RedisCommand::CLIENT: {
+      if(req.size() < 2) return conn->errArgs(req[0]);
+
       if(caseInsensitiveEquals(req[1], "setname")) {
         if(req.size() != 3) return conn->errArgs(req[0]);
 
-- 
2.43.0


From 403f051948b3f507d9cef20802541551bbb474bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 14/44] fix: locality hash commands with an empty key, field or
 hint failed an assertion

Such a request stopped every node of the cluster, and again on replaying the log.
---
 src/StateMachine.cc | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index bd3353f..06282a5 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -403,6 +403,10 @@ void StateMachine::lhsetInternal(WriteOperation &operation, std::string_view key
 rocksdb::Status StateMachine::lhmset(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end) {
   if((end - start) % 3 != 0) qdb_throw("lhmset: distance between start and end iterators must be a multiple of three");
 
+  for(auto it = start; it != end; it += 3) {
+    if(key.empty() || it->size() == 0u || (it+1)->size() == 0u) return malformed("key, field and locality hint cannot be empty");
+  }
+
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
@@ -417,10 +421,12 @@ rocksdb::Status StateMachine::lhmset(StagingArea &stagingArea, std::string_view
 }
 
 rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, std::string_view value, bool &fieldcreated) {
+  fieldcreated = false;
+  if(key.empty() || field.empty() || hint.empty()) return malformed("key, field and locality hint cannot be empty");
+
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
-  fieldcreated = false;
   lhsetInternal(operation, key, field, hint, value, fieldcreated);
   return operation.finalize(operation.keySize() + fieldcreated);
 }
@@ -428,6 +434,10 @@ rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view k
 rocksdb::Status StateMachine::lhlocdel(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, int64_t &removed) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
+  removed = 0;
+  // No locality hash has an empty key, field, or hint.
+  if(key.empty() || field.empty() || hint.empty()) return rocksdb::Status::OK();
+
   LocalityFieldLocator locator(key, hint, field);
 
   rocksdb::Status st = stagingArea.exists(locator.toView());
@@ -442,7 +452,6 @@ rocksdb::Status StateMachine::lhlocdel(StagingArea &stagingArea, std::string_vie
     return st;
   }
 
-  removed = 0;
   return rocksdb::Status::OK();
 }
 
@@ -453,6 +462,9 @@ rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view k
   if(!operation.valid()) return wrong_type();
 
   for(ReqIterator it = start; it != end; it++) {
+    // No locality hash has an empty key, or field.
+    if(key.empty() || it->size() == 0u) continue;
+
     std::string hint;
     bool exists = operation.getAndDeleteLocalityIndex(*it, hint);
     if(exists) {
@@ -468,6 +480,9 @@ rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view k
 rocksdb::Status StateMachine::lhget(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, std::string &value) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
+  // No locality hash has an empty key, or field.
+  if(key.empty() || field.empty()) return rocksdb::Status::NotFound();
+
   if(!hint.empty()) {
     // We were given a hint, whooo. Fast path.
     LocalityFieldLocator locator(key, hint, field);
@@ -710,11 +725,16 @@ rocksdb::Status StateMachine::hscan(StagingArea &stagingArea, std::string_view k
 rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view key, std::string_view cursor, std::string_view matchloc, size_t count, std::string &newCursor, std::vector<std::string> &results) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
+  newCursor = "";
+  results.clear();
+
+  // No locality hash has an empty key.
+  if(key.empty()) return rocksdb::Status::OK();
+
   std::string_view cursorHint;
   std::string_view cursorField;
 
   LocalityFieldLocator locator(key);
-  results.clear();
 
   std::string patternPrefix = extractPatternPrefix(matchloc);
   bool emptyPattern = (matchloc.empty() || matchloc == "*");
@@ -756,7 +776,6 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
     }
   }
 
-  newCursor = "";
   IteratorPtr iter(stagingArea.getIterator());
 
   for(iter->Seek(scanStart); iter->Valid(); iter->Next()) {
-- 
2.43.0


From add666465740297b4352501bc53ca222f2abfec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 15/44] fix: LEASE_GET on a key of another type failed an
 assertion

The request stopped every node of the cluster, and again on replaying the log.
---
 src/Dispatcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index c3b73d3..44eb909 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -420,7 +420,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::null();
       }
 
-      qdb_assert(st.ok());
+      if(!st.ok()) return Formatter::fromStatus(st);
 
       std::vector<std::string> reply;
       reply.emplace_back(SSTR("HOLDER: " << leaseInfo.getValue()));
-- 
2.43.0


From f7de44fb6bf41ece32f8bef68e97cf447a894f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 16/44] fix: LEASE_ACQUIRE with an empty holder failed an
 assertion

The request stopped every node of the cluster, and again on replaying the log.
---
 src/Dispatcher.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 44eb909..a1bf562 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -387,6 +387,10 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::err("value is not an integer or out of range");
       }
 
+      if(request[2].empty()) {
+        return Formatter::err("lease holder cannot be empty");
+      }
+
       qdb_assert(request[4].size() == 8u);
 
       ClockValue timestamp = binaryStringToUnsignedInt(request[4]);
-- 
2.43.0


From 72a906590df530400e7dd8d0639b0a99974f062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 17/44] fix: HVALS on a key of another type answered an empty
 list

---
 src/Dispatcher.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index a1bf562..e07cd2e 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -580,6 +580,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       if(request.size() != 2) return errArgs(request);
       std::vector<std::string> values;
       rocksdb::Status st = store.hvals(stagingArea, request[1], values);
+      if(!st.ok()) return Formatter::fromStatus(st);
       return Formatter::vector(values);
     }
     case RedisCommand::HSCAN: {
-- 
2.43.0


From 48f10f1ba4760c0ed114279135c04bfdf9205732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 18/44] fix: LHGET_WITH_FALLBACK with a wrong number of
 arguments was never answered

---
 src/Dispatcher.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index e07cd2e..5fd98fa 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -715,6 +715,9 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       else if(request.size() == 5) {
         resp = dispatchLHGET(stagingArea, request[1], request[2], request[3]);
       }
+      else {
+        return errArgs(request);
+      }
 
       // Did we succeed?
       if(resp.val != Formatter::null().val) return resp;
-- 
2.43.0


From fdb3618e3bd78ce82de38daa909e5ee55f87143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 19/44] fix: HINCRBYMULTI reported success after a failed
 increment

---
 src/Dispatcher.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 5fd98fa..2b17549 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -222,13 +222,16 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
       if(request.size() < 4 || ( ((request.size()-1) % 3)) != 0) return errArgs(request);
       size_t index = 1;
       int64_t ret = 0;
+      rocksdb::Status firstError;
       while(index < request.size()) {
         int64_t tmpret = 0;
-        store.hincrby(stagingArea, request[index], request[index+1], request[index+2], tmpret);
+        rocksdb::Status st = store.hincrby(stagingArea, request[index], request[index+1], request[index+2], tmpret);
+        if(!st.ok() && firstError.ok()) firstError = st;
         ret += tmpret;
 
         index += 3;
       }
+      if(!firstError.ok()) return Formatter::fromStatus(firstError);
       return Formatter::integer(ret);
     }
     case RedisCommand::HINCRBYFLOAT: {
-- 
2.43.0


From c05619b8108e759e19324836f33cd1416a3cb6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:39 +0000
Subject: [PATCH 20/44] fix: DEQUE_SCAN_BACK with a huge COUNT listed nothing
 and never ended

The position to start from was computed with a subtraction that wraps around.
---
 src/StateMachine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 06282a5..fd5f701 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -861,7 +861,8 @@ rocksdb::Status StateMachine::dequeScanBack(StagingArea &stagingArea, std::strin
     return malformed("invalid cursor");
   }
 
-  uint64_t startingMarker = cursorMarker - count;
+  // Don't wrap around if asked for more items than there are indexes.
+  uint64_t startingMarker = (count < cursorMarker) ? cursorMarker - count : 0;
 
   if(startingMarker <= keyinfo.getStartIndex() + 1) {
     newCursor = "";
-- 
2.43.0


From 83af89aa540bd37b8e7e9b12607fb772fbf8c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:56 +0000
Subject: [PATCH 21/44] fix: malformed counts and lengths in requests crashed
 the server or were misread

A negative or zero count, a negative length, a number which does not fit into an
int or which contains a NUL are reported as protocol errors.
---
 src/RedisParser.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/RedisParser.cc b/src/RedisParser.cc
index 8883b21..fe336c1 100644
--- a/src/RedisParser.cc
+++ b/src/RedisParser.cc
@@ -54,6 +54,11 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
     int retcode = readInteger('*', request_size);
     if(retcode <= 0) return retcode;
 
+    if(request_size == 0) {
+      qdb_warn("Redis protocol error, received an empty request");
+      return -1;
+    }
+
     element_size = -1;
     current_element = 0;
 
@@ -106,7 +111,7 @@ int RedisParser::readInteger(char prefix, int &retval) {
 
   char *endptr;
   long num = strtol(current_integer.c_str()+1, &endptr, 10);
-  if(*endptr != '\0' || num == LONG_MIN || num == LONG_MAX) {
+  if(endptr == current_integer.c_str()+1 || endptr != current_integer.c_str()+current_integer.size() || num < 0 || num > INT_MAX - 2) {
     qdb_warn("Redis protocol error, received an invalid integer");
     return -1;
   }
-- 
2.43.0


From bfac51b5b7bc99ca3463d82c0da82c048e78810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:07 +0000
Subject: [PATCH 22/44] fix: everything sent over a TLS link was sent in clear
 as well

---
 src/Link.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Link.cc b/src/Link.cc
index 2503104..42bcc59 100644
--- a/src/Link.cc
+++ b/src/Link.cc
@@ -135,7 +135,7 @@ LinkStatus Link::Send(const char *buff, int blen) {
 
   LinkStatus ret;
   if(tlsconfig.active) ret = tlsfilter.send(buff, blen);
-  ret = rawSend(buff, blen);
+  else ret = rawSend(buff, blen);
 
   if(ret != blen) {
     dead = true;
-- 
2.43.0


From 09a04e74602625640e38a5ee0c0d40c06e90cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:25 +0000
Subject: [PATCH 23/44] fix: a write racing with the loss of leadership
 deadlocked the node

---
 src/raft/RaftDispatcher.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 63c8295..6851880 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -436,20 +436,22 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
   LeaseFilter::transform(tx, txTimestamp);
 
   // send request to the write tracker
-  std::scoped_lock lock(raftCommand);
+  {
+    std::scoped_lock lock(raftCommand);
 
-  LogIndex index = journal.getLogSize();
+    LogIndex index = journal.getLogSize();
 
-  if(!writeTracker.append(index, snapshot->term, std::move(tx), conn->getQueue(), redisDispatcher)) {
-    // We were most likely hit by the following race:
-    // - We retrieved the state snapshot.
-    // - The raft term was changed in the meantime, we lost leadership.
-    // - The journal rejected the entry due to term mismatch.
-    // Let's simply retry.
-    return this->service(conn, tx);
+    if(writeTracker.append(index, snapshot->term, std::move(tx), conn->getQueue(), redisDispatcher)) {
+      return 1;
+    }
   }
 
-  return 1;
+  // We were most likely hit by the following race:
+  // - We retrieved the state snapshot.
+  // - The raft term was changed in the meantime, we lost leadership.
+  // - The journal rejected the entry due to term mismatch.
+  // Let's simply retry - without holding the lock, which is not recursive.
+  return this->service(conn, tx);
 }
 
 RaftHeartbeatResponse RaftDispatcher::heartbeat(const RaftHeartbeatRequest &req) {
-- 
2.43.0


From d6d5301deebd2d4550584cb04bbf91326b1fc55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 24/44] fix: write_file reports short writes and failing closes

fwrite's count was returned as a bool and fclose's result ignored: a write cut short by a full disk was a success, writing empty contents a failure.
---
 src/utils/FileUtils.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/utils/FileUtils.cc b/src/utils/FileUtils.cc
index ff1631c..839850e 100644
--- a/src/utils/FileUtils.cc
+++ b/src/utils/FileUtils.cc
@@ -183,8 +183,6 @@ bool areFilePermissionsSecure(mode_t mode) {
 }
 
 bool write_file(std::string_view path, std::string_view contents, std::string &err) {
-  bool retvalue;
-
   FILE *out = fopen(std::string(path).c_str(), "wb");
 
   if(!out) {
@@ -192,9 +190,15 @@ bool write_file(std::string_view path, std::string_view contents, std::string &e
     return false;
   }
 
-  retvalue = fwrite(contents.data(), sizeof(char), contents.size(), out);
-  fclose(out);
-  return retvalue;
+  size_t written = fwrite(contents.data(), sizeof(char), contents.size(), out);
+  bool closed = (fclose(out) == 0);
+
+  if(written != contents.size() || !closed) {
+    err = SSTR("Unable to write all contents into " << path << ", errno: " << errno);
+    return false;
+  }
+
+  return true;
 }
 
 void write_file_or_die(std::string_view path, std::string_view contents) {
-- 
2.43.0


From 7a594098347c72bba7524b9414ca11a412e95d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:22 +0000
Subject: [PATCH 25/44] fix: a resilvering history cut short is rejected

What followed the last newline was ignored, so a blob cut in the middle of an event was accepted with that event missing.
---
 src/utils/Resilvering.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/Resilvering.cc b/src/utils/Resilvering.cc
index c1d391a..81a9ce3 100644
--- a/src/utils/Resilvering.cc
+++ b/src/utils/Resilvering.cc
@@ -94,6 +94,10 @@ bool ResilveringHistory::deserialize(const std::string &str, ResilveringHistory
   hist.events.clear();
 
   std::vector<std::string> parts = split(str, "\n");
+
+  // Each event ends with a newline, nothing can follow the last one
+  if(!parts.back().empty()) return false;
+
   for(size_t i = 0; i < parts.size() - 1; i++) {
     ResilveringEvent ret;
     if(!ResilveringEvent::deserialize(parts[i], ret)) return false;
-- 
2.43.0


From 3b17791084304d121b968c6660a77c1b529eb20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:08 +0000
Subject: [PATCH 26/44] fix: neither empty text nor nan is a number

my_strtod accepted an empty text as zero, and nan.
---
 src/Utils.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utils.cc b/src/Utils.cc
index 7d5f400..8445591 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -62,9 +62,11 @@ bool caseInsensitiveEquals(std::string_view str1, std::string_view str2) {
 }
 
 bool my_strtod(std::string_view str, double &ret) {
+  if(str.empty()) return false;
+
   char *endptr = NULL;
   ret = strtod(str.data(), &endptr);
-  if(endptr != str.data() + str.size() || ret == HUGE_VAL || ret == -HUGE_VAL) {
+  if(endptr != str.data() + str.size() || ret == HUGE_VAL || ret == -HUGE_VAL || ret != ret) {
     return false;
   }
   return true;
-- 
2.43.0


From 817b07e5e21a2610a479e72ca6e2e2c48affc151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:21 +0000
Subject: [PATCH 27/44] fix: a server's port has to fit

parseServer cut off port numbers which do not fit into an int, and so accepted another server's address.
---
 src/Utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cc b/src/Utils.cc
index 8445591..f4fe78f 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -100,7 +100,7 @@ bool parseServer(std::string_view str, RaftServer &srv) {
   if(parts.size() != 2) return false;
 
   int64_t port;
-  if(!ParseUtils::parseInt64(parts[1], port)) return false;
+  if(!ParseUtils::parseInt64(parts[1], port) || port != (int) port) return false;
 
   srv = RaftServer{ parts[0], (int) port };
   return true;
-- 
2.43.0


From cc9815cb704551ab3810b4ffa54e0e9d7165dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:37 +0000
Subject: [PATCH 28/44] fix: iterating over a multi-map never ends if a key is
 erased meanwhile

KeyIterator reads keys ahead. If all values of such a key are erased before the iterator gets there, findMatching finds nothing and the loop looked the same key up again, forever. Go on with the next key instead.
---
 src/pubsub/ThreadSafeMultiMap.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pubsub/ThreadSafeMultiMap.hh b/src/pubsub/ThreadSafeMultiMap.hh
index 21b095d..6f65729 100644
--- a/src/pubsub/ThreadSafeMultiMap.hh
+++ b/src/pubsub/ThreadSafeMultiMap.hh
@@ -361,6 +361,9 @@ public:
           // Found valid position
           return;
         }
+
+        // All values of this key were erased in the meantime, try the next one
+        keyIter.next();
       }
 
       isValid = false;
-- 
2.43.0


From 65c81e2f54feeaceb603d3dcced28fe59df20c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:33 +0000
Subject: [PATCH 29/44] fix: keep the per-core slot inside the array

sched_getcpu() may return a number as large as, or larger than, std::thread::hardware_concurrency(), since the latter counts the usable cpus. The comparison let the number of slots itself through.
---
 src/utils/CoreLocalArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/CoreLocalArray.hh b/src/utils/CoreLocalArray.hh
index a8e49f1..83d7949 100644
--- a/src/utils/CoreLocalArray.hh
+++ b/src/utils/CoreLocalArray.hh
@@ -111,7 +111,7 @@ public:
   //----------------------------------------------------------------------------
   int getCoreIndex() const {
     int cpuno = sched_getcpu();
-    if(cpuno < 0 || cpuno > (int) cpus) {
+    if(cpuno < 0 || cpuno >= (int) cpus) {
       cpuno = 0;
     }
 
-- 
2.43.0


From 55427c6528ad0b614086620a20190ed2bcdbfc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:45 +0000
Subject: [PATCH 30/44] fix: refuse huge pool allocations instead of wrapping
 around

allocated + bytes overflows size_t for very large requests.
---
 src/memory/RingAllocator.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/RingAllocator.hh b/src/memory/RingAllocator.hh
index c05de1d..dda2efe 100644
--- a/src/memory/RingAllocator.hh
+++ b/src/memory/RingAllocator.hh
@@ -74,7 +74,7 @@ public:
   // this request.
   //----------------------------------------------------------------------------
   std::optional<PinnedBuffer> allocate(size_t bytes) {
-    if(allocated + bytes > region.size()) {
+    if(bytes > region.size() - allocated) {
       return {};
     }
 
-- 
2.43.0


From 84e806fc905401476ddf4e3b7607fb1017385094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:51 +0000
Subject: [PATCH 31/44] fix: VHDEL removing nothing must not use up the
 transaction's revision

VHDEL of absent fields wrote the descriptor and published an update under the
current revision. A VHSET following in the same transaction then took the
revision for incremented already, and changed the hash under its old revision.
---
 src/StateMachine.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index fd5f701..f2116e7 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1434,10 +1434,20 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   WriteOperation operation(stagingArea, key, KeyType::kVersionedHash);
   if(!operation.valid()) return wrong_type();
 
+  for(ReqIterator it = start; it != end; it++) {
+    removed += operation.deleteField(*it);
+  }
+
+  if(removed == 0) {
+    // Nothing has changed: neither touch the descriptor, nor publish anything.
+    version = operation.descriptor().getStartIndex();
+    operation.cancel();
+    return rocksdb::Status::OK();
+  }
+
   VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
 
   for(ReqIterator it = start; it != end; it++) {
-    removed += operation.deleteField(*it);
     revision.addUpdate(*it, "");
   }
 
@@ -1450,7 +1460,7 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   KeyDescriptor &descriptor = operation.descriptor();
   version = descriptor.getStartIndex();
 
-  if(removed != 0 && !operation.descriptorModifiedAlreadyInWriteBatch()) {
+  if(!operation.descriptorModifiedAlreadyInWriteBatch()) {
     version++;
     descriptor.setStartIndex(version);
   }
-- 
2.43.0


From 3744ecb87a518d4794df538290711afe02c0e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:45 +0000
Subject: [PATCH 32/44] fix: re-creating a versioned hash within one
 transaction must not stop the server

Deleting a versioned hash restarts its versions, but updates recorded earlier in
the same transaction kept their old revision number: the next VHSET failed the
assertion that all updates of a transaction share one revision.
---
 src/StateMachine.cc                         |  5 +++++
 src/storage/VersionedHashRevisionTracker.cc | 14 ++++++++++++++
 src/storage/VersionedHashRevisionTracker.hh |  6 ++++++
 3 files changed, 25 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index f2116e7..10560b1 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1822,6 +1822,10 @@ rocksdb::Status StateMachine::del(StagingArea &stagingArea, const ReqIterator &s
 
     removed++;
     stagingArea.del(dlocator.toView());
+
+    // Should the key be re-created in the same transaction, its versions start
+    // over: drop any updates pending for the hash which is now gone.
+    stagingArea.getRevisionTracker().erase(*it);
   }
 
   return rocksdb::Status::OK();
@@ -1913,6 +1917,7 @@ rocksdb::Status StateMachine::flushall(StagingArea &stagingArea) {
 
   int64_t tmp;
   remove_all_with_prefix("", tmp, stagingArea);
+  stagingArea.getRevisionTracker().clear();
   mExpirationCache.clear();
   return rocksdb::Status::OK();
 }
diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index 8edbf9f..fdd87e1 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -61,6 +61,20 @@ VersionedHashRevision& VersionedHashRevisionTracker::forKey(std::string_view key
   return contents[std::string(key)];
 }
 
+//------------------------------------------------------------------------------
+// Forget about any updates to a specific key
+//------------------------------------------------------------------------------
+void VersionedHashRevisionTracker::erase(std::string_view key) {
+  contents.erase(std::string(key));
+}
+
+//------------------------------------------------------------------------------
+// Forget about all updates
+//------------------------------------------------------------------------------
+void VersionedHashRevisionTracker::clear() {
+  contents.clear();
+}
+
 //------------------------------------------------------------------------------
 // Iterate through contents
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 605b62c..c77a7da 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -67,6 +67,12 @@ public:
   //----------------------------------------------------------------------------
   VersionedHashRevision& forKey(std::string_view key);
 
+  //----------------------------------------------------------------------------
+  // Forget about any updates to a specific key, or about all updates
+  //----------------------------------------------------------------------------
+  void erase(std::string_view key);
+  void clear();
+
   //----------------------------------------------------------------------------
   // Is it empty?
   //----------------------------------------------------------------------------
-- 
2.43.0


From 0a5e6f57172ef760fad4956b3c8d28f72fecff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:09 +0000
Subject: [PATCH 33/44] fix: setting a key to the empty string must keep its
 descriptor

WriteOperation::finalize dropped the descriptor of any key of size zero, which is
right for collections. A string's size is its length, the key exists though.
---
 src/StateMachine.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 10560b1..ca81fef 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1196,7 +1196,9 @@ rocksdb::Status StateMachine::WriteOperation::finalize(int64_t newsize, bool for
 
   if(newsize < 0) qdb_throw("invalid newsize: " << newsize);
 
-  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash) {
+  // A collection disappears along with its last element, with the exception of
+  // versioned hashes. The empty string is a value like any other.
+  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash && keyinfo.getKeyType() != KeyType::kString) {
     stagingArea.del(dlocator.toView());
   }
   else if(keyinfo.getSize() != newsize || forceUpdate) {
@@ -1258,7 +1260,7 @@ rocksdb::Status StateMachine::set(StagingArea &stagingArea, std::string_view key
   if(!operation.valid()) return wrong_type();
 
   operation.write(value);
-  return operation.finalize(value.size());
+  return operation.finalize(value.size(), !operation.keyExists());
 }
 
 rocksdb::Status StateMachine::dequePush(StagingArea &stagingArea, Direction direction, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &length) {
-- 
2.43.0


From 608f9293b3ca52b019c61eb545d6de4d6a2e226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:48 +0000
Subject: [PATCH 34/44] fix: fallback commands on a key of another type must
 not change anything

A failed LHSET no longer deletes the only copy of the field from the fallback,
and type errors are reported before anything is changed.
---
 src/Dispatcher.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 2b17549..193cd28 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -345,18 +345,36 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     }
     case RedisCommand::LHSET_AND_DEL_FALLBACK: {
       if(request.size() != 6) return errArgs(request);
-      RedisEncodedResponse resp = dispatchLHSET(stagingArea, request[1], request[2], request[3], request[4]);
-      dispatchHDEL(stagingArea, request[5], request.begin()+2, request.begin()+3);
-      return resp;
+
+      // Neither key is modified if the fallback is not a hash.
+      std::string ignored;
+      rocksdb::Status fallback = store.hget(stagingArea, request[5], request[2], ignored);
+      if(!fallback.ok() && !fallback.IsNotFound()) return Formatter::fromStatus(fallback);
+
+      bool fieldcreated = false;
+      rocksdb::Status st = store.lhset(stagingArea, request[1], request[2], request[3], request[4], fieldcreated);
+      if(!st.ok()) return Formatter::fromStatus(st);
+
+      if(fallback.ok()) {
+        int64_t removed = 0;
+        st = store.hdel(stagingArea, request[5], request.begin()+2, request.begin()+3, removed);
+        if(!st.ok()) return Formatter::fromStatus(st);
+      }
+
+      return Formatter::integer(fieldcreated);
     }
     case RedisCommand::LHDEL_WITH_FALLBACK: {
       if(request.size() != 4) return errArgs(request);
-      RedisEncodedResponse resp = dispatchLHDEL(stagingArea, request[1], request.begin()+2, request.begin()+3);
-      if(resp.val != Formatter::integer(1).val) {
+
+      int64_t removed = 0;
+      rocksdb::Status st = store.lhdel(stagingArea, request[1], request.begin()+2, request.begin()+3, removed);
+      if(!st.ok()) return Formatter::fromStatus(st);
+
+      if(removed == 0) {
         return dispatchHDEL(stagingArea, request[3], request.begin()+2, request.begin()+3);
       }
 
-      return resp;
+      return Formatter::integer(removed);
     }
     case RedisCommand::CONVERT_HASH_FIELD_TO_LHASH: {
       if(request.size() != 6) return errArgs(request);
-- 
2.43.0


From d82ae2da81d0cc47d4b862f696f04496f0ff6bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:22 +0000
Subject: [PATCH 35/44] fix: changing the vote must lock what readers of the
 vote lock

getVotedFor() reads votedFor under votedForMutex, but setCurrentTerm() changed it
while holding currentTermMutex only.
---
 src/raft/RaftJournal.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index c695972..dae9b8f 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -240,6 +240,8 @@ bool RaftJournal::setCurrentTerm(RaftTerm term, RaftServer vote) {
   commitBatch(batch, -1, true);
 
   currentTerm = term;
+
+  std::scoped_lock voteLock(votedForMutex);
   votedFor = vote;
   return true;
 }
-- 
2.43.0


From 706ced882cdc9ac5545d077e8da6fce08b16b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:45 +0000
Subject: [PATCH 36/44] fix: recovery scan reports a failed iteration

RecoveryEditor::scan ignored the iterator's status, and RECOVERY_SCAN ignored
the result of the scan. On a damaged store the listing stopped at the damage
and was presented as complete.
---
 src/recovery/RecoveryDispatcher.cc | 3 ++-
 src/recovery/RecoveryEditor.cc     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/recovery/RecoveryDispatcher.cc b/src/recovery/RecoveryDispatcher.cc
index 8f4012b..0a960dd 100644
--- a/src/recovery/RecoveryDispatcher.cc
+++ b/src/recovery/RecoveryDispatcher.cc
@@ -119,7 +119,8 @@ RedisEncodedResponse RecoveryDispatcher::dispatch(RedisRequest &request) {
 
       std::string nextCursor;
       std::vector<std::string> results;
-      editor.scan(args.cursor, args.count, nextCursor, results);
+      rocksdb::Status st = editor.scan(args.cursor, args.count, nextCursor, results);
+      if(!st.ok()) return Formatter::fromStatus(st);
 
       if(nextCursor == "") nextCursor = "0";
       else nextCursor = "next:" + nextCursor;
diff --git a/src/recovery/RecoveryEditor.cc b/src/recovery/RecoveryEditor.cc
index 13ba6da..8bef46f 100644
--- a/src/recovery/RecoveryEditor.cc
+++ b/src/recovery/RecoveryEditor.cc
@@ -128,7 +128,7 @@ rocksdb::Status RecoveryEditor::scan(std::string_view key, size_t count, std::st
     iter->Next();
   }
 
-  return rocksdb::Status::OK();
+  return iter->status();
 }
 
 rocksdb::Status RecoveryEditor::getAllVersions(std::string_view key, std::vector<std::string> &output) {
-- 
2.43.0


From 96ba390cf5ca0c08caacc01417e9773abd168eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:57 +0000
Subject: [PATCH 37/44] fix: recovery-get-all-versions reports a failed lookup

The status of GetAllKeyVersions was dropped, and so was that of
getAllVersions: when the storage engine refuses the lookup (an internal key
which cannot be parsed, say), the versions collected so far were presented
as all there are.
---
 src/recovery/RecoveryDispatcher.cc | 3 ++-
 src/recovery/RecoveryEditor.cc     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/recovery/RecoveryDispatcher.cc b/src/recovery/RecoveryDispatcher.cc
index 0a960dd..bba158d 100644
--- a/src/recovery/RecoveryDispatcher.cc
+++ b/src/recovery/RecoveryDispatcher.cc
@@ -130,7 +130,8 @@ RedisEncodedResponse RecoveryDispatcher::dispatch(RedisRequest &request) {
       if(request.size() != 2) return Formatter::errArgs(request[0]);
 
       std::vector<std::string> results;
-      editor.getAllVersions(request[1], results);
+      rocksdb::Status st = editor.getAllVersions(request[1], results);
+      if(!st.ok()) return Formatter::fromStatus(st);
       return Formatter::vector(results);
     }
     default: {
diff --git a/src/recovery/RecoveryEditor.cc b/src/recovery/RecoveryEditor.cc
index 8bef46f..c133b1d 100644
--- a/src/recovery/RecoveryEditor.cc
+++ b/src/recovery/RecoveryEditor.cc
@@ -133,7 +133,8 @@ rocksdb::Status RecoveryEditor::scan(std::string_view key, size_t count, std::st
 
 rocksdb::Status RecoveryEditor::getAllVersions(std::string_view key, std::vector<std::string> &output) {
   std::vector<rocksdb::KeyVersion> versions;
-  rocksdb::GetAllKeyVersions(db.get(), key, key, std::numeric_limits<size_t>::max(), &versions);
+  rocksdb::Status st = rocksdb::GetAllKeyVersions(db.get(), key, key, std::numeric_limits<size_t>::max(), &versions);
+  if(!st.ok()) return st;
 
   for(const rocksdb::KeyVersion& ver : versions) {
     output.emplace_back(SSTR("KEY: " << ver.user_key));
-- 
2.43.0


From 9652a2751514a7ff4aecd2455b67636a3e4c0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:36 +0000
Subject: [PATCH 38/44] fix: force reconfiguration reports a pending change
 which cannot be discarded

The results of the two deletions were dropped: when the storage engine could
not delete the pending membership change, the command answered OK and the
change stayed in the journal. A key which was not there (InvalidArgument)
remains fine.
---
 src/recovery/RecoveryDispatcher.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/recovery/RecoveryDispatcher.cc b/src/recovery/RecoveryDispatcher.cc
index bba158d..b349838 100644
--- a/src/recovery/RecoveryDispatcher.cc
+++ b/src/recovery/RecoveryDispatcher.cc
@@ -104,8 +104,12 @@ RedisEncodedResponse RecoveryDispatcher::dispatch(RedisRequest &request) {
       qdb_assert(editor.set(KeyConstants::kJournal_Members, request[1]).ok());
       qdb_assert(editor.set(KeyConstants::kJournal_MembershipEpoch, intToBinaryString(0)).ok());
 
-      editor.del(KeyConstants::kJournal_PreviousMembers);
-      editor.del(KeyConstants::kJournal_PreviousMembershipEpoch);
+      // InvalidArgument: the key was not there to begin with
+      st = editor.del(KeyConstants::kJournal_PreviousMembers);
+      if(!st.ok() && !st.IsInvalidArgument()) return Formatter::fromStatus(st);
+
+      st = editor.del(KeyConstants::kJournal_PreviousMembershipEpoch);
+      if(!st.ok() && !st.IsInvalidArgument()) return Formatter::fromStatus(st);
 
       return Formatter::ok();
     }
-- 
2.43.0


From 2d832ee1b2531f4cebe324e5b734d90965f0c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:52 +0000
Subject: [PATCH 39/44] fix: resilvering which failed to list the snapshot is
 over

The failure was recorded, and the target told to cancel, but the transfer went on.
---
 src/raft/RaftResilverer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft/RaftResilverer.cc b/src/raft/RaftResilverer.cc
index 321a277..be3d235 100644
--- a/src/raft/RaftResilverer.cc
+++ b/src/raft/RaftResilverer.cc
@@ -185,6 +185,7 @@ void RaftResilverer::main(ThreadAssistant &assistant) {
   size_t totalFiles = 0;
   if(!countFilesInDirectoryRecursively(shardSnapshot->getPath(), err, totalFiles)) {
     setStatus(ResilveringState::FAILED, err);
+    return;
   }
 
   mFilesTotal = totalFiles;
-- 
2.43.0


From 285be3126cf9f6e53bf1486209b67ff144f1d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:02 +0000
Subject: [PATCH 40/44] fix: never resilver a file which could not be read

A file of the snapshot which could not be read was sent as empty, and the target would end up with a broken database.
---
 src/raft/RaftResilverer.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/raft/RaftResilverer.cc b/src/raft/RaftResilverer.cc
index be3d235..62276dd 100644
--- a/src/raft/RaftResilverer.cc
+++ b/src/raft/RaftResilverer.cc
@@ -115,11 +115,13 @@ void RaftResilverer::cancel(const std::string &reason) {
 }
 
 bool RaftResilverer::copyFile(const std::string &path, const std::string &prefix, std::string &err) {
-  std::ifstream t(path);
-  std::stringstream buffer;
-  buffer << t.rdbuf();
+  std::string contents;
+  if(!readFile(path, contents)) {
+    err = SSTR("Unable to read " << path);
+    return false;
+  }
 
-  OkResponseVerifier verifier(talker.resilveringCopy(resilveringID, prefix, buffer.str()));
+  OkResponseVerifier verifier(talker.resilveringCopy(resilveringID, prefix, contents));
   if(!verifier.ok()) {
     err = SSTR("Error when coping " << path << ": " << verifier.err());
   }
-- 
2.43.0


From 7645d636a1403dd64eee692812e022413ff7930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:00 +0000
Subject: [PATCH 41/44] fix: only show journal entries which could be fetched

fetch_last ignored the outcome of fetch.
---
 src/raft/RaftJournal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index dae9b8f..8051084 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -595,7 +595,9 @@ void RaftJournal::fetch_last(int last, std::vector<RaftEntry> &entries) {
 
   for(LogIndex index = startIndex; index < endIndex; index++) {
     RaftEntry entry;
-    fetch(index, entry);
+    rocksdb::Status st = fetch(index, entry);
+    if(st.IsNotFound()) continue; // trimmed already
+    if(!st.ok()) qdb_throw("unable to fetch entry with index " << index << ": " << st.ToString());
     entries.emplace_back(entry);
   }
 }
-- 
2.43.0


From e62ad94188c41a1685021bbd820cd203b86608df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:18 +0000
Subject: [PATCH 42/44] fix: do not drop the outcome of writes

A reset which could not delete a key was reported as done.
---
 src/StateMachine.cc                 | 2 +-
 src/raft/RaftJournal.cc             | 2 +-
 src/storage/KeyDescriptorBuilder.cc | 2 +-
 src/storage/StagingArea.hh          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index ca81fef..eafe268 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -211,7 +211,7 @@ std::string StateMachine::getPhysicalLocation() const {
 void StateMachine::reset() {
   IteratorPtr iter(db->NewIterator(rocksdb::ReadOptions()));
   for(iter->SeekToFirst(); iter->Valid(); iter->Next()) {
-    db->Delete(rocksdb::WriteOptions(), iter->key().ToString());
+    THROW_ON_ERROR(db->Delete(rocksdb::WriteOptions(), iter->key().ToString()));
   }
 
   ensureCompatibleFormat(true);
diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index 8051084..07c3d02 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -115,7 +115,7 @@ void RaftJournal::ObliterateAndReinitializeJournal(const std::string &path, Raft
 void RaftJournal::obliterate(RaftClusterID newClusterID, const std::vector<RaftServer> &newNodes, LogIndex startIndex, FsyncPolicy fsyncPolicy) {
   IteratorPtr iter(db->NewIterator(rocksdb::ReadOptions()));
   for(iter->SeekToFirst(); iter->Valid(); iter->Next()) {
-    db->Delete(rocksdb::WriteOptions(), iter->key().ToString());
+    THROW_ON_ERROR(db->Delete(rocksdb::WriteOptions(), iter->key().ToString()));
   }
 
   this->set_int_or_die(KeyConstants::kJournal_CurrentTerm, 0);
diff --git a/src/storage/KeyDescriptorBuilder.cc b/src/storage/KeyDescriptorBuilder.cc
index 34bd94d..31f1cb9 100644
--- a/src/storage/KeyDescriptorBuilder.cc
+++ b/src/storage/KeyDescriptorBuilder.cc
@@ -31,7 +31,7 @@ using namespace quarkdb;
 static void appendToWriteBatch(std::string &prefix, std::string &key, KeyDescriptor &descriptor, rocksdb::WriteBatch &wb) {
   if(!key.empty()) {
     DescriptorLocator dlocator(key);
-    wb.Put(dlocator.toView(), descriptor.serialize());
+    qdb_assert(wb.Put(dlocator.toView(), descriptor.serialize()).ok());
   }
 
   prefix.clear();
diff --git a/src/storage/StagingArea.hh b/src/storage/StagingArea.hh
index f3e90f1..580f833 100644
--- a/src/storage/StagingArea.hh
+++ b/src/storage/StagingArea.hh
@@ -118,7 +118,7 @@ public:
       // rocksdb transactions have to build an internal index to implement
       // repeatable reads on the same tx. In bulkload mode we don't allow reads,
       // so let's use the much faster write batch.
-      writeBatch.Put(slice, value);
+      THROW_ON_ERROR(writeBatch.Put(slice, value));
       return;
     }
 
-- 
2.43.0


From f212286ea78122f93a880b58fd670c84d4259838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:31 +0000
Subject: [PATCH 43/44] fix: an iterator which failed has not reached the end

An iterator also becomes invalid upon an I/O error or corruption: ask for its status, instead of taking what was read so far for everything.
---
 src/StateMachine.cc                    | 15 +++++++++++++++
 src/raft/RaftJournal.cc                |  5 +++++
 src/storage/ExpirationEventIterator.cc |  1 +
 src/storage/KeyDescriptorBuilder.cc    |  1 +
 4 files changed, 22 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index eafe268..be6487c 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -213,6 +213,7 @@ void StateMachine::reset() {
   for(iter->SeekToFirst(); iter->Valid(); iter->Next()) {
     THROW_ON_ERROR(db->Delete(rocksdb::WriteOptions(), iter->key().ToString()));
   }
+  THROW_ON_ERROR(iter->status());
 
   ensureCompatibleFormat(true);
   ensureBulkloadSanity(true);
@@ -347,6 +348,7 @@ rocksdb::Status StateMachine::hkeys(StagingArea &stagingArea, std::string_view k
     if(!StringUtils::startsWith(tmp, locator.toView())) break;
     keys.push_back(std::string(tmp.begin()+locator.getPrefixSize(), tmp.end()));
   }
+  THROW_ON_ERROR(iter->status());
   return rocksdb::Status::OK();
 }
 
@@ -363,6 +365,7 @@ rocksdb::Status StateMachine::hgetall(StagingArea &stagingArea, std::string_view
     res.push_back(std::string(tmp.begin()+locator.getPrefixSize(), tmp.end()));
     res.push_back(iter->value().ToString());
   }
+  THROW_ON_ERROR(iter->status());
   return rocksdb::Status::OK();
 }
 
@@ -675,6 +678,7 @@ rocksdb::Status StateMachine::rawScanTombstones(StagingArea &stagingArea, std::s
 
     iter->Next();
   }
+  THROW_ON_ERROR(iter->status());
 
   return rocksdb::Status::OK();
 }
@@ -692,6 +696,7 @@ rocksdb::Status StateMachine::rawScan(StagingArea &stagingArea, std::string_view
     elements.emplace_back(iter->key().ToString());
     elements.emplace_back(iter->value().ToString());
   }
+  THROW_ON_ERROR(iter->status());
 
   return rocksdb::Status::OK();
 }
@@ -718,6 +723,7 @@ rocksdb::Status StateMachine::hscan(StagingArea &stagingArea, std::string_view k
     res.push_back(fieldname);
     res.push_back(iter->value().ToString());
   }
+  THROW_ON_ERROR(iter->status());
 
   return rocksdb::Status::OK();
 }
@@ -808,6 +814,7 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
       results.emplace_back(iter->value().ToStringView());
     }
   }
+  THROW_ON_ERROR(iter->status());
 
   return rocksdb::Status::OK();
 }
@@ -834,6 +841,7 @@ rocksdb::Status StateMachine::sscan(StagingArea &stagingArea, std::string_view k
 
     res.push_back(fieldname);
   }
+  THROW_ON_ERROR(iter->status());
 
   return rocksdb::Status::OK();
 }
@@ -902,6 +910,7 @@ rocksdb::Status StateMachine::hvals(StagingArea &stagingArea, std::string_view k
     if(!StringUtils::startsWith(tmp, locator.toView())) break;
     vals.push_back(iter->value().ToString());
   }
+  THROW_ON_ERROR(iter->status());
   return rocksdb::Status::OK();
 }
 
@@ -997,6 +1006,7 @@ rocksdb::Status StateMachine::smembers(StagingArea &stagingArea, std::string_vie
     if(!StringUtils::startsWith(tmp, locator.toView())) break;
     members.push_back(std::string(tmp.begin()+locator.getPrefixSize(), tmp.end()));
   }
+  THROW_ON_ERROR(iter->status());
   return rocksdb::Status::OK();
 }
 
@@ -1041,6 +1051,7 @@ rocksdb::Status StateMachine::configGetall(StagingArea &stagingArea, std::vector
     res.push_back(rkey.substr(1));
     res.push_back(iter->value().ToString());
   }
+  THROW_ON_ERROR(iter->status());
 
   return rocksdb::Status::OK();
 }
@@ -1506,6 +1517,7 @@ rocksdb::Status StateMachine::vhgetall(StagingArea &stagingArea, std::string_vie
     res.push_back(std::string(tmp.begin()+locator.getPrefixSize(), tmp.end()));
     res.push_back(iter->value().ToString());
   }
+  THROW_ON_ERROR(iter->status());
 
   version = keyinfo.getStartIndex();
   return rocksdb::Status::OK();
@@ -1544,6 +1556,7 @@ rocksdb::Status StateMachine::hclone(StagingArea &stagingArea, std::string_view
     );
     newsize++;
   }
+  THROW_ON_ERROR(iter->status());
 
   qdb_assert(newsize == sourceKeyInfo.getSize());
   return operation.finalize(newsize);
@@ -1779,6 +1792,7 @@ void StateMachine::remove_all_with_prefix(std::string_view prefix, int64_t &remo
     stagingArea.del(key);
     removed++;
   }
+  THROW_ON_ERROR(iter->status());
 }
 
 rocksdb::Status StateMachine::del(StagingArea &stagingArea, const ReqIterator &start, const ReqIterator &end, int64_t &removed) {
@@ -1909,6 +1923,7 @@ rocksdb::Status StateMachine::scan(StagingArea &stagingArea, std::string_view cu
       results.push_back(rkey.substr(1));
     }
   }
+  THROW_ON_ERROR(iter->status());
 
   newcursor.clear();
   return rocksdb::Status::OK();
diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index 07c3d02..0c04403 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -117,6 +117,7 @@ void RaftJournal::obliterate(RaftClusterID newClusterID, const std::vector<RaftS
   for(iter->SeekToFirst(); iter->Valid(); iter->Next()) {
     THROW_ON_ERROR(db->Delete(rocksdb::WriteOptions(), iter->key().ToString()));
   }
+  THROW_ON_ERROR(iter->status());
 
   this->set_int_or_die(KeyConstants::kJournal_CurrentTerm, 0);
   this->set_int_or_die(KeyConstants::kJournal_LogSize, startIndex+1);
@@ -729,6 +730,7 @@ RaftJournal::Iterator::Iterator(std::unique_ptr<rocksdb::Iterator> it, LogIndex
   iter->Seek(encodeEntryKey(currentIndex));
 
   if(!this->valid()) {
+    THROW_ON_ERROR(iter->status());
     iter.reset();
     return;
   }
@@ -773,6 +775,9 @@ void RaftJournal::Iterator::next() {
     currentIndex++;
     validate();
   }
+  else {
+    THROW_ON_ERROR(iter->status());
+  }
 }
 
 void RaftJournal::Iterator::current(RaftSerializedEntry &entry) {
diff --git a/src/storage/ExpirationEventIterator.cc b/src/storage/ExpirationEventIterator.cc
index 5a7ce02..3cdbab7 100644
--- a/src/storage/ExpirationEventIterator.cc
+++ b/src/storage/ExpirationEventIterator.cc
@@ -43,6 +43,7 @@ ExpirationEventIterator::~ExpirationEventIterator() {
 bool ExpirationEventIterator::valid() {
   if(!iter) return false;
   if(!iter->Valid()) {
+    THROW_ON_ERROR(iter->status());
     iter.reset();
     return false;
   }
diff --git a/src/storage/KeyDescriptorBuilder.cc b/src/storage/KeyDescriptorBuilder.cc
index 31f1cb9..78f2b5e 100644
--- a/src/storage/KeyDescriptorBuilder.cc
+++ b/src/storage/KeyDescriptorBuilder.cc
@@ -61,6 +61,7 @@ KeyDescriptorBuilder::KeyDescriptorBuilder(StateMachine &stateMachine) {
     }
 
     if(!iterator->Valid()) {
+      qdb_assert(iterator->status().ok());
       appendToWriteBatch(currentPrefix, currentKey, descriptor, descriptorBatch);
       break;
     }
-- 
2.43.0


From edbd693c41da76da6e31b231fdf564b544fe549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:04 +0000
Subject: [PATCH 44/44] fix: do not checkpoint databases which are being closed

QUARKDB_CHECKPOINT was not counted as a request in flight, so nothing kept the databases open during the checkpoint.
---
 src/QuarkDBNode.cc | 2 +-
 src/Shard.cc       | 9 +++++++++
 src/Shard.hh       | 1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index e593200..3d99cd0 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -158,7 +158,7 @@ LinkStatus QuarkDBNode::dispatch(Connection *conn, RedisRequest &req) {
     }
     case RedisCommand::QUARKDB_CHECKPOINT: {
       if(req.size() != 2) return conn->errArgs(req[0]);
-      std::string err = shardDirectory->checkpoint(req[1]);
+      std::string err = shard->checkpoint(req[1]);
 
       if(!err.empty()) {
         return conn->err(err);
diff --git a/src/Shard.cc b/src/Shard.cc
index 01f5d11..9b9aab5 100644
--- a/src/Shard.cc
+++ b/src/Shard.cc
@@ -118,6 +118,15 @@ LinkStatus Shard::dispatch(Connection *conn, Transaction &transaction) {
   return dispatcher->dispatch(conn, transaction);
 }
 
+std::string Shard::checkpoint(std::string_view path) {
+  InFlightRegistration registration(inFlightTracker);
+  if(!registration.ok()) {
+    return "unavailable";
+  }
+
+  return shardDirectory->checkpoint(path);
+}
+
 NodeHealth Shard::getHealth() {
   NodeHealth nodeHealth;
 
diff --git a/src/Shard.hh b/src/Shard.hh
index 2e44e85..c4b8968 100644
--- a/src/Shard.hh
+++ b/src/Shard.hh
@@ -48,6 +48,7 @@ public:
   virtual void notifyDisconnect(Connection *conn) override final {}
   size_t monitors() { return commandMonitor.size(); }
   NodeHealth getHealth();
+  std::string checkpoint(std::string_view path);
 
 private:
   void detach();
-- 
2.43.0

