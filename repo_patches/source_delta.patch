From ee8a4c6699ed10798198a04490a536d0c32abbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 01/19] fix: keep noise ranges inside the database when
 rounding up exhausts it early

---
 DPPIR/noise/noise.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 08bf1d3..0d3d97a 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -1,5 +1,6 @@
 #include "DPPIR/noise/noise.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <cstdlib>
@@ -34,11 +35,9 @@ std::pair<key_t, key_t> FindRange(server_id_t server_id,
                                   server_id_t servers_count, index_t db_size) {
   assert(db_size >= servers_count);
   index_t range_size = std::ceil(1.0 * db_size / servers_count);
-  key_t range_start = server_id * range_size;
-  key_t range_end = range_start + range_size;
-  if (server_id == servers_count - 1) {
-    range_end = db_size;
-  }
+  // Rounding up may exhaust the database before the last server(s).
+  key_t range_start = std::min<index_t>(server_id * range_size, db_size);
+  key_t range_end = std::min<index_t>(range_start + range_size, db_size);
   return std::make_pair(range_start, range_end);
 }
 
-- 
2.43.0


From 2eb5d38db2c6d50f76d59120f2ac6547cbecf90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 02/19] fix: client tags of different servers no longer collide
 when query counts differ

---
 DPPIR/protocol/client/client_handlers.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DPPIR/protocol/client/client_handlers.cc b/DPPIR/protocol/client/client_handlers.cc
index 7e8d03d..16f282e 100644
--- a/DPPIR/protocol/client/client_handlers.cc
+++ b/DPPIR/protocol/client/client_handlers.cc
@@ -14,7 +14,9 @@ tag_t Client::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
   // TODO(babman): sample this tag uniformly at random.
-  return this->server_id_ * this->queries_count_ + id;
+  // Clients may make different numbers of queries, so the server id must not be
+  // scaled by this client's own count.
+  return (static_cast<tag_t>(this->server_id_) << 32) + id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
-- 
2.43.0


From 32a43a39da53d2af81e52b977db8f3b4b8989a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 03/19] fix: draw shuffle positions from the whole range
 (rand() yields 31 bits, not 32)

---
 DPPIR/shuffle/util.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DPPIR/shuffle/util.cc b/DPPIR/shuffle/util.cc
index ebb97a8..dc11f42 100644
--- a/DPPIR/shuffle/util.cc
+++ b/DPPIR/shuffle/util.cc
@@ -6,12 +6,14 @@ namespace util {
 
 void seed(int s) { srand(s); }
 
+static_assert(RAND_MAX == 2147483647, "rand() must yield 31 random bits");
+
 // https://lemire.me/blog/2016/06/30/fast-random-shuffling/
 uint32_t random_bounded(uint32_t range) {
   // NOLINTNEXTLINE
-  uint64_t random32bit = static_cast<uint32_t>(rand());  // 32-bit random number
-  uint64_t multiresult = random32bit * range;
-  return multiresult >> 32;
+  uint64_t random31bit = static_cast<uint32_t>(rand());  // 31-bit random number
+  uint64_t multiresult = random31bit * range;
+  return multiresult >> 31;
 }
 
 }  // namespace util
-- 
2.43.0


From b208504d094e1df34239ff6f46f1ff97cd38b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 04/19] fix: reject truncated configurations instead of reading
 past their end

---
 DPPIR/config/config.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DPPIR/config/config.cc b/DPPIR/config/config.cc
index db0ebae..72199f4 100644
--- a/DPPIR/config/config.cc
+++ b/DPPIR/config/config.cc
@@ -17,12 +17,14 @@ inline std::string Double2Bin(double v) {
 }
 // Read.
 inline int Bin2Int(const char** data, size_t* n) {
+  assert(*n >= sizeof(int));
   int v = *reinterpret_cast<const int*>(*data);
   *data += sizeof(int);
   *n -= sizeof(int);
   return v;
 }
 inline double Bin2Double(const char** data, size_t* n) {
+  assert(*n >= sizeof(double));
   double v = *reinterpret_cast<const double*>(*data);
   *data += sizeof(double);
   *n -= sizeof(double);
-- 
2.43.0


From 30e2042797c4ab35062eafb7896cc1dad23259e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 05/19] fix: noise tags of sibling servers no longer collide
 when noise is sampled

---
 .../parallel_party/parallel_party_handlers.cc       | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
index dc40fe6..49ff7c5 100644
--- a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
+++ b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
@@ -7,20 +7,15 @@
 namespace DPPIR {
 namespace protocol {
 
-static int64_t NOISE_OFFSET = -1;
-
 // Randomly sample a tag. Must be from a large enough domain to avoid colisions.
 tag_t ParallelParty::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
-  if (NOISE_OFFSET == -1) {
-    index_t range = this->noise_end_ - this->noise_start_;
-    index_t noise_per_row = this->noise_count_ / range;
-    index_t total_noise = noise_per_row * this->db_.Size();
-    NOISE_OFFSET = total_noise - (this->noise_start_ * noise_per_row);
-  }
+  // Rows do not all get the same amount of noise when noise is sampled, so the
+  // tags of a server must not depend on how much noise its siblings add.
   // TODO(babman): sample the tag uniformly at random.
-  return this->total_batch_size_ - NOISE_OFFSET + id;
+  tag_t party = this->party_id_ + 1;  // 0: clients.
+  return (party << 48) + (static_cast<tag_t>(this->server_id_) << 32) + id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
-- 
2.43.0


From 45ac18f9f0815bf63fe8bf56af6251cab44f37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:44 +0000
Subject: [PATCH 06/19] fix: noise range end does not wrap around for databases
 close to 2^32 rows

---
 DPPIR/noise/noise.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 0d3d97a..ab8ea6b 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -37,7 +37,7 @@ std::pair<key_t, key_t> FindRange(server_id_t server_id,
   index_t range_size = std::ceil(1.0 * db_size / servers_count);
   // Rounding up may exhaust the database before the last server(s).
   key_t range_start = std::min<index_t>(server_id * range_size, db_size);
-  key_t range_end = std::min<index_t>(range_start + range_size, db_size);
+  key_t range_end = range_start + std::min(range_size, db_size - range_start);
   return std::make_pair(range_start, range_end);
 }
 
-- 
2.43.0


From 71128d7dbcbdf42d00dc44bcbb7603bbdb3a8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:35 +0000
Subject: [PATCH 07/19] fix: local shuffle seeds start at 1 (rand() yields the
 same sequence for seeds 0 and 1)

---
 DPPIR/config/gen_config.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index b2d648c..f219e2d 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -41,7 +41,7 @@ Config Interactive() {
       std::cout << "Party " << int(i) << " - Server " << int(j) << std::endl;
       // One server at a time.
       ServerConfig& server = party.servers.at(j);
-      server.local_seed = i * config.server_count + j;
+      server.local_seed = i * config.server_count + j + 1;
       server.port = 3000 + (i * config.server_count + j);
       server.parallel_port = 4000 + (i * config.server_count + j);
       // IP.
@@ -81,7 +81,7 @@ Config FromArgs(int argc, char** argv) {
     for (server_id_t j = 0; j < config.server_count; j++) {
       // One server at a time.
       ServerConfig& server = party.servers.at(j);
-      server.local_seed = i * config.server_count + j;
+      server.local_seed = i * config.server_count + j + 1;
       // Port.
       server.port = 3000 + (i * config.server_count + j);
       server.parallel_port = 4000 + (i * config.server_count + j);
-- 
2.43.0


From 82410211b95f4cb4f29e3fb0ccda76f103704bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:24 +0000
Subject: [PATCH 08/19] fix: refuse interactive answers that are not numbers

---
 DPPIR/config/gen_config.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index f219e2d..4262929 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -25,6 +25,7 @@ Config Interactive() {
   int party_count, server_count;
   std::cin >> party_count;
   std::cin >> server_count;
+  assert(!std::cin.fail());
 
   std::string dummy;
   std::getline(std::cin, dummy);
-- 
2.43.0


From 1942d6276d36788bb299e7cf97370d0f2cb713cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:51 +0000
Subject: [PATCH 09/19] fix: stopping an experiment leaves workers of other
 experiments alone

---
 experiments/orchestrator/experiment.js   | 8 +++++++-
 experiments/orchestrator/orchestrator.js | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/experiments/orchestrator/experiment.js b/experiments/orchestrator/experiment.js
index 5d44453..e478ca5 100644
--- a/experiments/orchestrator/experiment.js
+++ b/experiments/orchestrator/experiment.js
@@ -47,6 +47,12 @@ AbstractExperiment.prototype.assignWorker = function (worker) {
     this.startTime = Date.now();
   }
 };
+AbstractExperiment.prototype.kill = function (worker) {
+  // The worker may have finished already and work for another experiment.
+  if (worker.experiment === this) {
+    worker.kill();
+  }
+};
 AbstractExperiment.prototype.finished = function (worker) {
   if (worker.workerType == WorkerType.CLIENT) {
     this.finishedClients++;
@@ -55,7 +61,7 @@ AbstractExperiment.prototype.finished = function (worker) {
         this.status = Status.EXPERIMENT_CLEANUP;
         console.log("Experiment " + this.id + " is cleaning up!");
         for (const server of this.servers) {
-          server.kill();
+          this.kill(server);
         }
       }
       if (this.serversNum == 0 || this.finishedServers == this.serversNum) {
diff --git a/experiments/orchestrator/orchestrator.js b/experiments/orchestrator/orchestrator.js
index 26a7b9f..357f18f 100644
--- a/experiments/orchestrator/orchestrator.js
+++ b/experiments/orchestrator/orchestrator.js
@@ -77,10 +77,10 @@ Orchestrator.prototype.kill = function (experimentId) {
   for (const experiment of this.experiments) {
     if (experiment.id == experimentId) {
       for (const worker of experiment.clients) {
-        worker.kill();
+        experiment.kill(worker);
       }
       for (const worker of experiment.servers) {
-        worker.kill();
+        experiment.kill(worker);
       }
       return;
     }
-- 
2.43.0


From 703519d2de6de8d9cd8dc3adca08ba4cf7c65919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:19 +0000
Subject: [PATCH 10/19] fix: let ServersMap hold an entry for each of 255
 servers

server_count_ + 1 does not fit in server_id_t when a party has 255 servers
(the most the configuration allows), so every server crashed on start.
---
 DPPIR/types/containers.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/DPPIR/types/containers.h b/DPPIR/types/containers.h
index b9a6509..31fdff2 100644
--- a/DPPIR/types/containers.h
+++ b/DPPIR/types/containers.h
@@ -16,16 +16,18 @@ template <typename T>
 class ServersMap {
  public:
   // Fill with default constructor.
-  ServersMap(server_id_t server_id, server_id_t server_count)
+  // server_count may be one more than server_id_t can hold (when all servers,
+  // including server_id_, have entries).
+  ServersMap(server_id_t server_id, index_t server_count)
       : server_id_(server_id), data_(std::make_unique<T[]>(server_count - 1)) {}
 
   // Fill with copy constructor.
-  ServersMap(server_id_t server_id, server_id_t server_count, T fill)
+  ServersMap(server_id_t server_id, index_t server_count, T fill)
       : ServersMap(server_id, server_count) {
-    for (server_id_t i = 0; i < server_id; i++) {
+    for (index_t i = 0; i < server_id; i++) {
       this->data_[i] = fill;
     }
-    for (server_id_t i = server_id + 1; i < server_count; i++) {
+    for (index_t i = server_id + 1; i < server_count; i++) {
       this->data_[i - 1] = fill;
     }
   }
-- 
2.43.0


From 11a28ca89706bd007767e17279cff37ac6f61793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:01 +0000
Subject: [PATCH 11/19] fix: refuse numbers of parties, servers and rows that a
 configuration cannot hold

257 parties became one party, -1 servers became 255, and -5 rows became
4294967291 without a word.
---
 DPPIR/config/gen_config.cc | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index 4262929..5cfa0b8 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <iostream>
+#include <limits>
 #include <string>
 
 #include "DPPIR/config/config.h"
@@ -8,12 +9,27 @@
 namespace DPPIR {
 namespace config {
 
+// Refuses sizes that do not fit in the configuration rather than wrap them.
+void SetSizes(int64_t db_size, int party_count, int server_count,
+              Config* config) {
+  assert(db_size >= 0 && db_size <= std::numeric_limits<index_t>::max());
+  assert(party_count > 0 &&
+         party_count <= std::numeric_limits<party_id_t>::max());
+  assert(server_count > 0 &&
+         server_count <= std::numeric_limits<server_id_t>::max());
+  config->db_size = db_size;
+  config->party_count = party_count;
+  config->server_count = server_count;
+  config->parties = std::vector<PartyConfig>(party_count);
+}
+
 Config Interactive() {
   Config config;
 
   // Database config.
   std::cout << "Enter database size: ";
-  std::cin >> config.db_size;
+  int64_t db_size;
+  std::cin >> db_size;
 
   // DP parameters.
   std::cout << "Enter epsilon and delta: ";
@@ -30,9 +46,7 @@ Config Interactive() {
   std::string dummy;
   std::getline(std::cin, dummy);
 
-  config.party_count = party_count;
-  config.server_count = server_count;
-  config.parties = std::vector<PartyConfig>(party_count);
+  SetSizes(db_size, party_count, server_count, &config);
   for (party_id_t i = 0; i < config.party_count; i++) {
     // One party at a time.
     PartyConfig& party = config.parties.at(i);
@@ -62,15 +76,12 @@ Config Interactive() {
 Config FromArgs(int argc, char** argv) {
   assert(argc >= 6);
   Config config;
-  // Database config.
-  config.db_size = std::stoi(argv[1]);
   // DP parameters.
   config.epsilon = std::stod(argv[2]);
   config.delta = std::stod(argv[3]);
-  // Parties and servers.
-  config.party_count = std::stoi(argv[4]);
-  config.server_count = std::stoi(argv[5]);
-  config.parties = std::vector<PartyConfig>(config.party_count);
+  // Database, parties, and servers.
+  SetSizes(std::stoll(argv[1]), std::stoi(argv[4]), std::stoi(argv[5]),
+           &config);
   // Party/server details.
   int args = 6 + (config.party_count * config.server_count);
   assert(argc == args || argc == 6);
-- 
2.43.0


From 409bb72ded8cf770ef9fbac750fc23fd7b6d720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:49 +0000
Subject: [PATCH 12/19] fix: refuse a query count that does not fit a batch

---
 DPPIR/main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DPPIR/main.cc b/DPPIR/main.cc
index b62748d..715c0b5 100644
--- a/DPPIR/main.cc
+++ b/DPPIR/main.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <iostream>
+#include <limits>
 #include <string>
 
 #include "DPPIR/config/config.h"
@@ -66,6 +67,11 @@ int main(int argc, char** argv) {
     std::cout << "--queries is required for clients" << std::endl;
     return 1;
   }
+  if (role == "client" &&
+      queries > std::numeric_limits<DPPIR::index_t>::max()) {
+    std::cout << "--queries is too large" << std::endl;
+    return 1;
+  }
   if (server_id < 0) {
     std::cout << "--server_id is required" << std::endl;
     return 1;
-- 
2.43.0


From 986fc5d323ec80b9120d89b41ed6366bd0902449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:49 +0000
Subject: [PATCH 13/19] fix: make the check that noise fits its type effective

---
 DPPIR/noise/noise.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index ab8ea6b..81c63dd 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <random>
 
 namespace DPPIR {
@@ -55,8 +56,8 @@ NoiseDistribution::NoiseDistribution(double epsilon, double delta) {
     std::cout << "Noise cutoff: " << this->cutoff_ << std::endl;
   }
   // Noise domain must fit inside sample_t.
-  index_t max = std::floor(2 * this->cutoff_);
-  if (max != static_cast<sample_t>(max)) {
+  double max = std::floor(2 * this->cutoff_);
+  if (!(max >= 0 && max <= std::numeric_limits<sample_t>::max())) {
     std::cout << "sample_t too small to fit noise, max = " << max << std::endl;
     assert(false);
   }
-- 
2.43.0


From 3d7ee612f6ed8b95dbb2c03bf7683baead446952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:49 +0000
Subject: [PATCH 14/19] fix: refuse server addresses that are not IPv4
 addresses

---
 DPPIR/sockets/common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DPPIR/sockets/common.cc b/DPPIR/sockets/common.cc
index badc8b8..9f79635 100644
--- a/DPPIR/sockets/common.cc
+++ b/DPPIR/sockets/common.cc
@@ -55,7 +55,7 @@ int ConnectTo(const char* ip, int port) {
   struct sockaddr_in servaddr;
   servaddr.sin_family = AF_INET;  // IPv4
   servaddr.sin_port = htons(port);
-  assert(inet_pton(AF_INET, ip, &servaddr.sin_addr) >= 0);
+  assert(inet_pton(AF_INET, ip, &servaddr.sin_addr) == 1);
 
   // Connect to the server.
   while (connect(sockfd, reinterpret_cast<sockaddr*>(&servaddr),
-- 
2.43.0


From 2dac4116cdd07b28b1681754a7f181c9c95a0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:49 +0000
Subject: [PATCH 15/19] fix: refuse batches whose size overflows

---
 .../parallel_party/parallel_party_initialization.cc         | 6 ++++++
 DPPIR/protocol/party/party_initialization.cc                | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/DPPIR/protocol/parallel_party/parallel_party_initialization.cc b/DPPIR/protocol/parallel_party/parallel_party_initialization.cc
index cbc6e5f..66df240 100644
--- a/DPPIR/protocol/parallel_party/parallel_party_initialization.cc
+++ b/DPPIR/protocol/parallel_party/parallel_party_initialization.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <iostream>
+#include <limits>
 #include <utility>
 
 #include "DPPIR/onion/onion.h"
@@ -94,6 +95,7 @@ void ParallelParty::InitializeNoiseSamples() {
   for (key_t i = 0; i < size; i++) {
     sample_t sample = this->distribution_.Sample();
     this->noise_.PushBack(sample);
+    assert(sample <= std::numeric_limits<index_t>::max() - this->noise_count_);
     this->noise_count_ += sample;
   }
 }
@@ -105,6 +107,8 @@ void ParallelParty::InitializeNoiseSamples() {
 void ParallelParty::InitializeCounts() {
   // Read the count of incoming queries from previous party.
   this->input_count_ = this->back_.ReadCount();
+  assert(this->input_count_ <=
+         std::numeric_limits<index_t>::max() - this->noise_count_);
 
   // Broadcast incoming query count to all parallel servers.
   this->siblings_.BroadcastCount(this->noise_count_ + this->input_count_);
@@ -117,6 +121,8 @@ void ParallelParty::InitializeCounts() {
     } else {
       this->at_sibling_counts_[id] = this->noise_count_ + this->input_count_;
     }
+    assert(this->at_sibling_counts_[id] <=
+           std::numeric_limits<index_t>::max() - this->total_batch_size_);
     this->total_batch_size_ += this->at_sibling_counts_[id];
   }
 
diff --git a/DPPIR/protocol/party/party_initialization.cc b/DPPIR/protocol/party/party_initialization.cc
index cf30861..34e17f6 100644
--- a/DPPIR/protocol/party/party_initialization.cc
+++ b/DPPIR/protocol/party/party_initialization.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <iostream>
+#include <limits>
 #include <utility>
 
 #include "DPPIR/onion/onion.h"
@@ -72,6 +73,7 @@ void Party::InitializeNoiseSamples() {
   for (key_t i = 0; i < size; i++) {
     sample_t sample = this->distribution_.Sample();
     this->noise_.PushBack(sample);
+    assert(sample <= std::numeric_limits<index_t>::max() - this->noise_count_);
     this->noise_count_ += sample;
   }
 }
@@ -79,6 +81,8 @@ void Party::InitializeNoiseSamples() {
 void Party::InitializeCounts() {
   // Read the count of incoming queries from previous party.
   this->input_count_ = this->back_.ReadCount();
+  assert(this->input_count_ <=
+         std::numeric_limits<index_t>::max() - this->noise_count_);
   this->shuffled_count_ = this->input_count_ + this->noise_count_;
 
   // Send output count to next party.
-- 
2.43.0


From 6a5d4aab67bb4d3e7b0d08a3f5598e8f1dc26abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:09 +0000
Subject: [PATCH 16/19] fix: seed the generator that noise is sampled with

Nothing seeded rand() before noise was sampled (DPPIR_SAMPLE), so that every
server drew the same amounts, in every run: noise that everybody knows.
---
 DPPIR/main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DPPIR/main.cc b/DPPIR/main.cc
index 715c0b5..2c85bb9 100644
--- a/DPPIR/main.cc
+++ b/DPPIR/main.cc
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 #include <limits>
 #include <string>
@@ -28,6 +29,9 @@ ABSL_FLAG(int64_t, queries, -1, "# of queries (required if role is client)");
 int main(int argc, char** argv) {
   assert(sodium_init() >= 0);
 
+  // Noise is sampled with rand(): it must differ between servers and runs.
+  srand(randombytes_random());
+
   // Command line flags.
   absl::SetProgramUsageMessage(USAGE_MESSAGE);
   absl::ParseCommandLine(argc, argv);
-- 
2.43.0


From 9f774c60097b073061d9233774cba4955e6994df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 17/19] fix: read Checklist server times of an hour or more and
 below a millisecond

---
 experiments/plots/plot.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/experiments/plots/plot.py b/experiments/plots/plot.py
index 87a53ab..7133dde 100644
--- a/experiments/plots/plot.py
+++ b/experiments/plots/plot.py
@@ -29,7 +29,7 @@ MEAN_NOISE = 276
 
 DPPIR_ONLINE_REGEX = r'Online time: ([0-9]+)ms'
 DPPIR_OFFLINE_REGEX = r'Offline time: ([0-9]+)ms'
-CHECKLIST_REGEX = r'Server [0-9] time: ([0-9]+m)?([0-9.]+)([a-z]+) and '
+CHECKLIST_REGEX = r'Server [0-9] time: ([0-9]+h)?([0-9]+m)?([0-9.]+)([a-zµ]+) and '
 SEALPIR_REGEX = r'Server time: ([0-9]+)ms'
 
 class Table:
@@ -143,17 +143,23 @@ class Series:
 
     if self.protocol == 'Checklist':
       y = -100000
-      for m, t, u in re.findall(CHECKLIST_REGEX, data):
+      for h, m, t, u in re.findall(CHECKLIST_REGEX, data):
         if len(m) > 0:
           m = int(m[:-1]) * 60
         else:
           m = 0
+        if len(h) > 0:
+          m = m + int(h[:-1]) * 3600
 
         t = float(t)
         if u == 's':
           y = max(y, m + t)
         elif u == 'ms':
           y = max(y, m + (t / 1000.0))
+        elif u == 'µs':
+          y = max(y, m + (t / 1000000.0))
+        elif u == 'ns':
+          y = max(y, m + (t / 1000000000.0))
         else:
           assert False, 'invalid unit'
       return y
@@ -267,17 +273,23 @@ class ExtrapolateData:
 
     if self.protocol == 'Checklist':
       y = -100000
-      for m, t, u in re.findall(CHECKLIST_REGEX, data):
+      for h, m, t, u in re.findall(CHECKLIST_REGEX, data):
         if len(m) > 0:
           m = int(m[:-1]) * 60
         else:
           m = 0
+        if len(h) > 0:
+          m = m + int(h[:-1]) * 3600
 
         t = float(t)
         if u == 's':
           y = max(y, m + t)
         elif u == 'ms':
           y = max(y, m + (t / 1000.0))
+        elif u == 'µs':
+          y = max(y, m + (t / 1000000.0))
+        elif u == 'ns':
+          y = max(y, m + (t / 1000000000.0))
         else:
           assert False, 'invalid unit'
       assert y != -100000, 'Could not parse Checklist'
-- 
2.43.0


From a44b74905e0eafcf9ad33ecf27cf9930afedd521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 18/19] fix: refuse to plot a Checklist run whose log reports
 no server time

---
 experiments/plots/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/plots/plot.py b/experiments/plots/plot.py
index 7133dde..47843b1 100644
--- a/experiments/plots/plot.py
+++ b/experiments/plots/plot.py
@@ -162,6 +162,7 @@ class Series:
           y = max(y, m + (t / 1000000000.0))
         else:
           assert False, 'invalid unit'
+      assert y != -100000, 'Could not parse Checklist'
       return y
 
     if self.protocol == 'SealPIR':
-- 
2.43.0


From 80fddc1f624109bd812baece625635ba9ad0ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 19/19] fix: plot DP-PIR results whose epsilon or delta is
 written with an exponent

---
 experiments/plots/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/plots/plot.py b/experiments/plots/plot.py
index 47843b1..75b8abd 100644
--- a/experiments/plots/plot.py
+++ b/experiments/plots/plot.py
@@ -65,7 +65,7 @@ class Table:
     if not dirname.startswith('{}-'.format(self.experiment_name)):
       return False
     # tables only supported for DP-PIR.
-    return len([c for c in dirname if c == '-']) == 6
+    return len([c for c in dirname if c == '-']) >= 6
 
   def compatible_file(self, filename):
     return filename.startswith('party-0')
@@ -113,7 +113,7 @@ class Series:
       return False
 
     if self.protocol == 'DP-PIR':
-      return len([c for c in dirname if c == '-']) == 6
+      return len([c for c in dirname if c == '-']) >= 6
     else:
       return len([c for c in dirname if c == '-']) == 2
 
@@ -241,7 +241,7 @@ class ExtrapolateData:
       return False
 
     if self.protocol == 'DP-PIR':
-      return len([c for c in dirname if c == '-']) == 6
+      return len([c for c in dirname if c == '-']) >= 6
     else:
       return len([c for c in dirname if c == '-']) == 2
 
-- 
2.43.0

