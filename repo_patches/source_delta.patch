From d28ea760fbc84cc8689051289a210c3cb9294258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 01/24] fix: emit the integer token for 4-byte Smile varints
 (values from 2^19 on)

---
 spectator/smile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/smile.cc b/spectator/smile.cc
index 9b3006e..db6d98a 100644
--- a/spectator/smile.cc
+++ b/spectator/smile.cc
@@ -52,7 +52,7 @@ void SmilePayload::Append(size_t n) {
   auto b2 = static_cast<uint8_t>(i & 0x7FU);
   i >>= 7U;
   if (i <= 0x7F) {
-    buffer_.Append(kTokenInt32, static_cast<uint8_t>(i), b2, b1, b0);
+    buffer_.Append(kByteInt32, static_cast<uint8_t>(i), b2, b1, b0);
     return;
   }
   // no, need all 5 bytes
-- 
2.43.0


From 23c529f2b2e2e18d2c9543cde833014f37807752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 02/24] fix: add_double must add to the value the exchange
 compares with

The sum was computed from a second load, so a value changed and restored
between the loads (ABA) lost or repeated an increment.
---
 spectator/atomicnumber.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spectator/atomicnumber.h b/spectator/atomicnumber.h
index f5be358..e15e603 100644
--- a/spectator/atomicnumber.h
+++ b/spectator/atomicnumber.h
@@ -10,8 +10,7 @@ inline auto add_double(std::atomic<double>* n, double delta) -> void {
   double current;
   do {
     current = n->load(std::memory_order_relaxed);
-  } while (!n->compare_exchange_weak(
-      current, n->load(std::memory_order_relaxed) + delta));
+  } while (!n->compare_exchange_weak(current, current + delta));
 }
 
 /// Atomically set the max value of an atomic number
-- 
2.43.0


From 6d5a9810f6f10798a935bdc240e7065529de9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 03/24] fix: ignore not-a-number deltas in Counter::Add

Adding NaN made the count NaN and lost every increment of the interval.
---
 spectator/counter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/counter.cc b/spectator/counter.cc
index 0804622..60a3346 100644
--- a/spectator/counter.cc
+++ b/spectator/counter.cc
@@ -22,7 +22,7 @@ void Counter::Increment() noexcept { Add(1.0); }
 void Counter::Add(double delta) noexcept {
   Update();
 
-  if (delta < 0) {
+  if (!(delta >= 0)) {
     return;
   }
   add_double(&count_, delta);
-- 
2.43.0


From ea849fe1d47aa133eced65a2f1349aac86227272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 04/24] fix: MonotonicCounter::Measure loses an increase set
 while it runs

---
 spectator/monotonic_counter.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spectator/monotonic_counter.cc b/spectator/monotonic_counter.cc
index 980adef..acb63fd 100644
--- a/spectator/monotonic_counter.cc
+++ b/spectator/monotonic_counter.cc
@@ -19,9 +19,10 @@ auto MonotonicCounter::Delta() const noexcept -> double {
 }
 
 void MonotonicCounter::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed),
-                    std::memory_order_relaxed);
+  // one snapshot of the source value: a concurrent Set must not come between
+  // computing the delta and remembering the value it was computed from
+  auto value = value_.load(std::memory_order_relaxed);
+  auto delta = value - prev_value_.exchange(value, std::memory_order_relaxed);
   if (delta > 0) {
     if (!count_id_) {
       count_id_ =
-- 
2.43.0


From fe36f74ae32262267c3695b040f42cc5ba31f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 05/24] fix: MonotonicCounterUint::Measure loses an increase
 set while it runs

---
 spectator/monotonic_counter_uint.cc | 12 +++++++++---
 spectator/monotonic_counter_uint.h  |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/spectator/monotonic_counter_uint.cc b/spectator/monotonic_counter_uint.cc
index a89ef2b..a0b4486 100644
--- a/spectator/monotonic_counter_uint.cc
+++ b/spectator/monotonic_counter_uint.cc
@@ -16,10 +16,13 @@ void MonotonicCounterUint::Set(uint64_t amount) noexcept {
 }
 
 auto MonotonicCounterUint::Delta() const noexcept -> double {
+  return DeltaOf(value_.load(std::memory_order_relaxed));
+}
+
+auto MonotonicCounterUint::DeltaOf(uint64_t curr) const noexcept -> double {
   if (!init_.load(std::memory_order_relaxed)) return kNaN;
 
   auto prev = prev_value_.load(std::memory_order_relaxed);
-  auto curr = value_.load(std::memory_order_relaxed);
 
   if (curr < prev) {
     return kMax - prev + curr + 1;
@@ -29,8 +32,11 @@ auto MonotonicCounterUint::Delta() const noexcept -> double {
 }
 
 void MonotonicCounterUint::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+  // one snapshot of the source value: a concurrent Set must not come between
+  // computing the delta and remembering the value it was computed from
+  auto curr = value_.load(std::memory_order_relaxed);
+  auto delta = DeltaOf(curr);
+  prev_value_.store(curr, std::memory_order_relaxed);
   init_.store(true, std::memory_order_relaxed);
 
   if (delta > 0) {
diff --git a/spectator/monotonic_counter_uint.h b/spectator/monotonic_counter_uint.h
index 64ca7ab..ca462fe 100644
--- a/spectator/monotonic_counter_uint.h
+++ b/spectator/monotonic_counter_uint.h
@@ -13,6 +13,8 @@ class MonotonicCounterUint : public Meter {
   auto Delta() const noexcept -> double;
 
  private:
+  auto DeltaOf(uint64_t curr) const noexcept -> double;
+
   mutable std::unique_ptr<Id> count_id_;
   mutable std::atomic<bool> init_;
   mutable std::atomic<uint64_t> value_;
-- 
2.43.0


From 4b06f4556bdeb4b5af958c3b5c3cc047d085da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 06/24] fix: MonotonicSampled::Measure loses an increase set
 while it runs

---
 spectator/monotonic_sampled.cc | 16 +++++++++++-----
 spectator/monotonic_sampled.h  |  3 +++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/spectator/monotonic_sampled.cc b/spectator/monotonic_sampled.cc
index 1e1d5bf..29c4008 100644
--- a/spectator/monotonic_sampled.cc
+++ b/spectator/monotonic_sampled.cc
@@ -29,13 +29,15 @@ void MonotonicSampled::Set(double amount, int64_t ts_nanos) noexcept {
 }
 
 void MonotonicSampled::Measure(Measurements* results) const noexcept {
-  auto sampled_delta = SampledRate();
-  if (std::isnan(sampled_delta)) {
-    return;
-  }
-
+  double sampled_delta;
   {
+    // the rate and the sample it ends at are taken together: a concurrent Set
+    // must not come between them
     absl::MutexLock lock(&mutex_);
+    sampled_delta = RateLocked();
+    if (std::isnan(sampled_delta)) {
+      return;
+    }
     prev_value_ = value_;
     prev_ts_ = ts_;
   }
@@ -50,6 +52,10 @@ void MonotonicSampled::Measure(Measurements* results) const noexcept {
 
 auto MonotonicSampled::SampledRate() const noexcept -> double {
   absl::MutexLock lock(&mutex_);
+  return RateLocked();
+}
+
+auto MonotonicSampled::RateLocked() const noexcept -> double {
   auto delta_t = (ts_ - prev_ts_) / 1e9;
   return (value_ - prev_value_) / delta_t;
 }
diff --git a/spectator/monotonic_sampled.h b/spectator/monotonic_sampled.h
index 5618108..8f453a2 100644
--- a/spectator/monotonic_sampled.h
+++ b/spectator/monotonic_sampled.h
@@ -20,5 +20,8 @@ class MonotonicSampled : public Meter {
   mutable double prev_value_ ABSL_GUARDED_BY(mutex_);
   int64_t ts_ ABSL_GUARDED_BY(mutex_);
   mutable int64_t prev_ts_ ABSL_GUARDED_BY(mutex_);
+
+  auto RateLocked() const noexcept -> double
+      ABSL_EXCLUSIVE_LOCKS_REQUIRED(mutex_);
 };
 }  // namespace spectator
-- 
2.43.0


From c3930fe7e31d0ccb0800010bdda8b7fc3dda4722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 07/24] fix: MonotonicCounterUint measured before its first Set
 took 0 as baseline

---
 spectator/monotonic_counter_uint.cc | 6 +++++-
 spectator/monotonic_counter_uint.h  | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/spectator/monotonic_counter_uint.cc b/spectator/monotonic_counter_uint.cc
index a0b4486..38d0465 100644
--- a/spectator/monotonic_counter_uint.cc
+++ b/spectator/monotonic_counter_uint.cc
@@ -8,11 +8,12 @@ static constexpr auto kNaN = std::numeric_limits<double>::quiet_NaN();
 static constexpr auto kMax = std::numeric_limits<uint64_t>::max();
 
 MonotonicCounterUint::MonotonicCounterUint(Id id) noexcept
-    : Meter{std::move(id)}, init_(false), value_(0), prev_value_(0) {}
+    : Meter{std::move(id)}, init_(false), has_value_(false), value_(0), prev_value_(0) {}
 
 void MonotonicCounterUint::Set(uint64_t amount) noexcept {
   Update();
   value_.store(amount, std::memory_order_relaxed);
+  has_value_.store(true, std::memory_order_release);
 }
 
 auto MonotonicCounterUint::Delta() const noexcept -> double {
@@ -32,6 +33,9 @@ auto MonotonicCounterUint::DeltaOf(uint64_t curr) const noexcept -> double {
 }
 
 void MonotonicCounterUint::Measure(Measurements* results) const noexcept {
+  // without a value there is no baseline to take
+  if (!has_value_.load(std::memory_order_acquire)) return;
+
   // one snapshot of the source value: a concurrent Set must not come between
   // computing the delta and remembering the value it was computed from
   auto curr = value_.load(std::memory_order_relaxed);
diff --git a/spectator/monotonic_counter_uint.h b/spectator/monotonic_counter_uint.h
index ca462fe..8956d3a 100644
--- a/spectator/monotonic_counter_uint.h
+++ b/spectator/monotonic_counter_uint.h
@@ -17,6 +17,7 @@ class MonotonicCounterUint : public Meter {
 
   mutable std::unique_ptr<Id> count_id_;
   mutable std::atomic<bool> init_;
+  std::atomic<bool> has_value_;
   mutable std::atomic<uint64_t> value_;
   mutable std::atomic<uint64_t> prev_value_;
 };
-- 
2.43.0


From c4d7577db2551a936485789f3ad2230787fb4525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 08/24] fix: move assignment of tags takes over the capacity
 and releases the old storage

---
 spectator/tags.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectator/tags.h b/spectator/tags.h
index b8f6f83..b7b441d 100644
--- a/spectator/tags.h
+++ b/spectator/tags.h
@@ -58,10 +58,17 @@ class Tags {
   auto operator=(const Tags&) -> Tags& = delete;
 
   auto operator=(Tags&& o) noexcept -> Tags& {
+    if (this == &o) {
+      return *this;
+    }
+    if (is_large()) {
+      free(begin_);
+    }
     size_ = o.size_;
     if (is_large()) {
       begin_ = o.begin_;
       o.begin_ = nullptr;
+      U.capacity_ = o.U.capacity_;
     } else {
       begin_ = &U.entries_[0];
       std::copy(o.begin(), o.end(), begin());
-- 
2.43.0


From 86ebb3d90ce5b0691b2d7126807b3fdae544a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 09/24] fix: a large tag set is empty after it was moved from

---
 spectator/tags.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spectator/tags.h b/spectator/tags.h
index b7b441d..0d43177 100644
--- a/spectator/tags.h
+++ b/spectator/tags.h
@@ -36,8 +36,8 @@ class Tags {
   Tags(Tags&& o) noexcept : size_{o.size_}, begin_{o.begin_} {
     if (is_large()) {
       // take ownership of the memory
-      o.begin_ = nullptr;
       U.capacity_ = o.U.capacity_;
+      o.release();
     } else {
       begin_ = &U.entries_[0];
       std::copy(o.begin(), o.end(), begin());
@@ -67,8 +67,8 @@ class Tags {
     size_ = o.size_;
     if (is_large()) {
       begin_ = o.begin_;
-      o.begin_ = nullptr;
       U.capacity_ = o.U.capacity_;
+      o.release();
     } else {
       begin_ = &U.entries_[0];
       std::copy(o.begin(), o.end(), begin());
@@ -167,6 +167,12 @@ class Tags {
   [[nodiscard]] auto end() -> iterator { return begin_ + size_; }
 
  private:
+  // become empty after the memory was taken over by another instance
+  auto release() -> void {
+    size_ = 0;
+    begin_ = &U.entries_[0];
+  }
+
   auto insert(StrRef k, StrRef v) -> void {
     auto* it = std::lower_bound(
         begin(), end(), k,
-- 
2.43.0


From d701fbb2bf83d398d18715a571e8342b5578d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 10/24] fix: leave room for the NUL after a datagram as large
 as the receive buffer

---
 server/local_server.cc | 2 +-
 server/local_server.h  | 2 +-
 server/udp_server.cc   | 2 +-
 server/udp_server.h    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/local_server.cc b/server/local_server.cc
index a3cdf28..2754e59 100644
--- a/server/local_server.cc
+++ b/server/local_server.cc
@@ -13,7 +13,7 @@ void LocalServer::Start() { start_local_receive(); }
 
 void LocalServer::start_local_receive() {
   socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      asio::buffer(recv_buffer_, recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
         if (bytes_transferred >= recv_buffer_.size()) {
           Logger()->error("too many bytes transferred: {} >= {}",
diff --git a/server/local_server.h b/server/local_server.h
index dbdfdcb..78ef1b9 100644
--- a/server/local_server.h
+++ b/server/local_server.h
@@ -15,7 +15,7 @@ class LocalServer {
  private:
   handler_t handler_;
   asio::local::datagram_protocol::socket socket_;
-  std::array<char, 65536> recv_buffer_{};
+  std::array<char, 65536 + 1> recv_buffer_{};  // one more for the NUL
   void start_local_receive();
 };
 
diff --git a/server/udp_server.cc b/server/udp_server.cc
index 5136902..4a2f0e3 100644
--- a/server/udp_server.cc
+++ b/server/udp_server.cc
@@ -23,7 +23,7 @@ UdpServer::UdpServer(asio::io_context& io_context, bool ipv4_only, int port_numb
 
 void UdpServer::start_udp_receive() {
   udp_socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      asio::buffer(recv_buffer_, recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
         if (bytes_transferred >= recv_buffer_.size()) {
           Logger()->error("too many bytes transferred: {} >= {}",
diff --git a/server/udp_server.h b/server/udp_server.h
index 450e7a3..68ade72 100644
--- a/server/udp_server.h
+++ b/server/udp_server.h
@@ -14,7 +14,7 @@ class UdpServer {
 
  private:
   asio::ip::udp::socket udp_socket_;
-  std::array<char, 65536> recv_buffer_{};
+  std::array<char, 65536 + 1> recv_buffer_{};  // one more for the NUL
   handler_t message_handler_;
 
   void start_udp_receive();
-- 
2.43.0


From 10e98835657bb43eaa25b6a8f012c1e1374b497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:22 +0000
Subject: [PATCH 11/24] fix: max_buffer_size wrote one byte past its buffer for
 a file of 4096 bytes or more

---
 server/proc_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/proc_utils.cc b/server/proc_utils.cc
index 911423d..c1c0a46 100644
--- a/server/proc_utils.cc
+++ b/server/proc_utils.cc
@@ -23,7 +23,7 @@ auto max_buffer_size(const char* proc_file) -> int {
   } else {
     result = kDefault;
     char buf[4096];
-    int n = read(fd, buf, sizeof buf);
+    int n = read(fd, buf, sizeof buf - 1);
     if (n > 0) {
       buf[n] = '\0';
       if (!absl::SimpleAtoi(buf, &result)) {
-- 
2.43.0


From c9606ec58f1c8b9747ed9b762bb0a9c2dd5a3edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 12/24] fix: monotonic sampled sources read the parsed value as
 a double

get_measurement parses every value but 'U' with strtod, so the bits of the
double were taken for an integer.
---
 server/spectatord.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 0207e8d..2832f19 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -592,7 +592,7 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
         // extra is milliseconds since the epoch
         auto nanos = extra * 1000 * 1000;
         registry_->GetMonotonicSampled(measurement->id)
-            ->Set(measurement->value.u, nanos);
+            ->Set(measurement->value.d, nanos);
       }
       break;
     default:
-- 
2.43.0


From 0554d3c97e38a6fc90ccb68ad2bd2a789b5e221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 13/24] fix: reject a line with a tag that has no '='

The value was then parsed from the text after the comma (c:name,12 added 2), and
beyond the end of the line when that was empty (c:name,).
---
 server/spectatord.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 2832f19..c43f1a2 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -239,7 +239,10 @@ auto get_measurement(char type, std::string_view measurement_str, std::string* e
     while (measurement_str[pos] != ':') {
       ++pos;
       auto k_pos = measurement_str.find('=', pos);
-      if (k_pos == std::string_view::npos) break;
+      if (k_pos == std::string_view::npos) {
+        *err_msg = "Missing '=' in tag";
+        return {};
+      }
       auto key = measurement_str.substr(pos, k_pos - pos);
       ++k_pos;
       auto v_pos = measurement_str.find_first_of(",:", k_pos);
-- 
2.43.0


From 4b3bfcc3595c74157693a3873055ac799b746a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 14/24] fix: reject monotonic sampled sources with a missing or
 too large timestamp

Without one the line was counted as parsed but updated nothing; one that does not
fit in nanoseconds overflowed.
---
 server/spectatord.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index c43f1a2..232ad3d 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -515,14 +515,16 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
         auto msg = fmt::format("Invalid ttl specified for gauge at index {}", idx);
         Logger()->info(fmt::format("Parse error for '{}': {}", buffer, msg));
         return msg;
-      } else if (type == 'X') {
-        auto msg = fmt::format("Invalid timestamp specified for monotonic sampled source at index {}", idx);
-        Logger()->info(fmt::format("Parse error for '{}': {}", buffer, msg));
-        return msg;
       }
     }
     p = end_ttl;
   }
+  // the timestamp, in milliseconds, is required and has to fit in nanoseconds
+  if (type == 'X' && (extra <= 0 || extra > std::numeric_limits<int64_t>::max() / 1000000)) {
+    auto msg = fmt::format("Invalid timestamp specified for monotonic sampled source at index {}", p - buffer);
+    Logger()->info(fmt::format("Parse error for '{}': {}", buffer, msg));
+    return msg;
+  }
   if (*p != ':') {
     auto msg = fmt::format("Expecting separator ':' at index {}", p - buffer);
     Logger()->info(fmt::format("Parse error for '{}': {}", buffer, msg));
-- 
2.43.0


From 32e41ad3d944589c570fb23e67c2522bef6bd67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 15/24] fix: do not read past the end of an empty line

A packet that starts with a newline hands an empty line to the parser.
---
 server/spectatord.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 232ad3d..f6c181e 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -503,6 +503,9 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
 
   const char* p = buffer;
 
+  if (*p == '\0') {
+    return "Empty line";
+  }
   auto type = *p++;
   auto extra = int64_t{0};
   if (*p == ',') {
-- 
2.43.0


From 0c361e6151fb4eac36482747b92e075c2da2f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 16/24] fix: measure, count and expire monotonic sampled
 sources

They were registered but left out of the registry's size, of every measurement and of
every expiration pass.
---
 spectator/registry.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 936b239..1f43381 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -167,7 +167,7 @@ struct all_meters {
   auto size() const -> size_t {
     return age_gauges_.size() + counters_.size() + dist_sums_.size() +
            gauges_.size() + max_gauges_.size() + mono_counters_.size() +
-           mono_counters_uint_.size() + timers_.size();
+           mono_counters_uint_.size() + mono_sampled_.size() + timers_.size();
   }
 
   auto measure(int64_t meter_ttl) const -> std::vector<Measurement> {
@@ -180,6 +180,7 @@ struct all_meters {
     max_gauges_.measure(&res, meter_ttl);
     mono_counters_.measure(&res, meter_ttl);
     mono_counters_uint_.measure(&res, meter_ttl);
+    mono_sampled_.measure(&res, meter_ttl);
     timers_.measure(&res, meter_ttl);
     return res;
   }
@@ -210,6 +211,9 @@ struct all_meters {
     std::tie(expired, count) = mono_counters_uint_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
+    std::tie(expired, count) = mono_sampled_.remove_expired(meter_ttl);
+    total_expired += expired;
+    total_count += count;
     std::tie(expired, count) = timers_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
-- 
2.43.0


From 743aaa6eb74a3d0d6cb3e17eb44cd2f6199be4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 17/24] fix: deleting all meters of a kind advanced an iterator
 to an erased meter

---
 spectator/registry.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 1f43381..785d1be 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -120,12 +120,7 @@ struct meter_map {
 
   void remove_all() noexcept {
     absl::MutexLock lock{&meters_mutex_};
-    auto it = meters_.begin();
-    auto end = meters_.end();
-    while (it != end) {
-      meters_.erase(it->first);
-      ++it;
-    }
+    meters_.clear();
   }
 
   auto get_ids() const -> std::vector<Id> {
-- 
2.43.0


From d3a6fbe946b209372ec0832c71910956bcccede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 18/24] fix: reject a statsd sampling rate that is not a number

---
 server/spectatord.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index f6c181e..dcaa2e7 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -184,7 +184,7 @@ auto Server::parse_statsd_line(const char* buffer)
     if (*p == '@') {
       ++p;
       sampling_rate = std::strtod(p, &last_char);
-      if (last_char == p || sampling_rate <= 0 || sampling_rate > 1) {
+      if (last_char == p || !(sampling_rate > 0 && sampling_rate <= 1)) {
         return fmt::format("Invalid sampling rate for name={}", name);
       }
       p = last_char;
-- 
2.43.0


From e58239b1bb6cbdb362c9834a5d083b288a7b8cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 19/24] fix: count the repetitions of a sampled statsd value in
 the type of their number

---
 server/spectatord.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index dcaa2e7..0feedb2 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -86,7 +86,7 @@ static void update_statsd_metric(spectator::Registry* registry,
     case StatsdMetricType::Histogram: {
       auto k = std::lround(1 / sampling_rate);
       auto hist = registry->GetDistributionSummary(std::move(id));
-      for (auto i = 0; i < k; ++i) {
+      for (auto i = 0L; i < k; ++i) {
         hist->Record(value);
       }
       break;
@@ -95,7 +95,7 @@ static void update_statsd_metric(spectator::Registry* registry,
       auto k = std::lround(1 / sampling_rate);
       auto ns = std::chrono::nanoseconds(std::lround(value * 1e6));
       auto timer = registry->GetTimer(std::move(id));
-      for (auto i = 0; i < k; ++i) {
+      for (auto i = 0L; i < k; ++i) {
         timer->Record(ns);
       }
       break;
-- 
2.43.0


From ded7cc13443be9f25aace5379114b19506ccad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 20/24] fix: look at the first character of statsd tags and end
 their keys at the first ':'

---
 server/spectatord.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 0feedb2..da2fb13 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -199,18 +199,17 @@ auto Server::parse_statsd_line(const char* buffer)
       const char* end_key = nullptr;
       const char* begin_value = nullptr;
       while (*p != '\0') {
-        ++p;
-        if (*p == ':') {
+        if (*p == ':' && begin_value == nullptr) {
           end_key = p;
-          begin_value = ++p;
-        }
-        if (*p == ',') {
+          begin_value = p + 1;
+        } else if (*p == ',') {
           if (!add_tag(&tags, begin_key, end_key, begin_value, p)) {
             return fmt::format("Invalid tags for name={}", name);
           }
           begin_value = nullptr;
-          begin_key = ++p;
+          begin_key = p + 1;
         }
+        ++p;
       }
       if (!add_tag(&tags, begin_key, end_key, begin_value, p)) {
         return fmt::format("Invalid tags for name={}", name);
-- 
2.43.0


From 61f859f9ee3ee7a0d1ed9ebe96f6716d8921b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 21/24] fix: look up and create age gauges under one lock

---
 spectator/registry.cc | 36 ++++++++++++++++++------------------
 spectator/registry.h  | 15 +++++++++++----
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 88514f4..11ebecb 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -26,26 +26,26 @@ auto Registry::GetLogger() const noexcept -> Registry::logger_ptr {
 }
 
 auto Registry::GetAgeGauge(Id id) noexcept -> std::shared_ptr<AgeGauge> {
-  if (all_meters_.age_gauges_.contains(id)) {
-    return all_meters_.age_gauges_.at(id);
-  } else {
-    if (all_meters_.age_gauges_.size() < config_->age_gauge_limit) {
-      return all_meters_.insert_age_gauge(std::move(id));
-    } else {
-      logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
-                    config_->age_gauge_limit);
-
-      if (age_gauge_first_warn_) {
-        auto known_age_gauges = all_meters_.age_gauges_.get_ids();
-        for (size_t i = 0; i < known_age_gauges.size(); ++i) {
-          logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
-        }
-        age_gauge_first_warn_ = false;
-      }
-
-      return std::make_shared<AgeGauge>(std::move(id));
+  // one step, so that no other thread can delete the age gauge or use up the
+  // limit in between
+  auto age_gauge =
+      all_meters_.insert_age_gauge(id, config_->age_gauge_limit);
+  if (age_gauge != nullptr) {
+    return age_gauge;
+  }
+
+  logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
+                config_->age_gauge_limit);
+
+  if (age_gauge_first_warn_) {
+    auto known_age_gauges = all_meters_.age_gauges_.get_ids();
+    for (size_t i = 0; i < known_age_gauges.size(); ++i) {
+      logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
     }
+    age_gauge_first_warn_ = false;
   }
+
+  return std::make_shared<AgeGauge>(std::move(id));
 }
 
 auto Registry::GetAgeGauge(std::string_view name, Tags tags) noexcept
diff --git a/spectator/registry.h b/spectator/registry.h
index 785d1be..3feaa38 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -69,9 +69,16 @@ struct meter_map {
     return insert_result.first->second;
   }
 
-  auto at(const Id& id) -> std::shared_ptr<M> {
+  // same, but only insert while there are fewer than limit meters: returns
+  // nullptr if the meter doesn't exist and there is no room for it
+  auto insert(std::shared_ptr<M> meter, size_t limit) -> std::shared_ptr<M> {
     absl::MutexLock lock(&meters_mutex_);
-    return meters_.at(id);
+    const auto& id = meter->MeterId();
+    if (meters_.size() >= limit && !meters_.contains(id)) {
+      return nullptr;
+    }
+    auto insert_result = meters_.emplace(id, std::move(meter));
+    return insert_result.first->second;
   }
 
   void measure(std::vector<Measurement>* res, int64_t meter_ttl) const {
@@ -215,8 +222,8 @@ struct all_meters {
     return {total_expired, total_count};
   }
 
-  auto insert_age_gauge(Id id) {
-    return age_gauges_.insert(std::make_shared<AgeGauge>(std::move(id)));
+  auto insert_age_gauge(Id id, size_t limit) {
+    return age_gauges_.insert(std::make_shared<AgeGauge>(std::move(id)), limit);
   }
 
   auto insert_counter(Id id) {
-- 
2.43.0


From bff6d6b5fe367f11a633b86fcde0955a4655a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 22/24] fix: do not count negative amounts in a percentile
 timer's bucket

---
 spectator/percentile_timer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectator/percentile_timer.h b/spectator/percentile_timer.h
index 7a023b0..b8169f1 100644
--- a/spectator/percentile_timer.h
+++ b/spectator/percentile_timer.h
@@ -25,6 +25,10 @@ class PercentileTimer {
   }
 
   void Record(absl::Duration amount) noexcept {
+    if (amount < absl::ZeroDuration()) {
+      // the timer drops these: do not count them in a bucket either
+      return;
+    }
     timer_->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(absl::ToInt64Nanoseconds(restricted));
-- 
2.43.0


From 6491909d4c5f9010b30f332e54756792de735bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 23/24] fix: survive any answer of the aggregator to a batch

An answer of status 201-499 whose body is deeply nested JSON, is not an
object, or has an errorCount or messages of unexpected types crashed the
publisher or yielded more dropped measurements than were sent.
---
 spectator/publisher.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 57231ae..82a6247 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -283,7 +283,8 @@ class Publisher {
       num_sent = num_measurements;
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
-      body.Parse(http_response.raw_body.c_str(), http_response.raw_body.size());
+      // iterative: the depth of the answer must not be limited by the stack
+      body.Parse<rapidjson::kParseIterativeFlag>(http_response.raw_body.c_str(), http_response.raw_body.size());
       if (body.HasParseError()) {
         logger->error("Unable to parse JSON response from {} - status {}: {}",
                       uri, http_code, http_response.raw_body);
@@ -292,21 +293,32 @@ class Publisher {
           droppedOther_->Add(num_measurements);
         }
       } else {
-        if (body.HasMember("errorCount")) {
-          auto err_count = body["errorCount"].GetInt();
+        auto err_count = num_measurements + 1;
+        if (body.IsObject()) {
+          auto err_member = body.FindMember("errorCount");
+          if (err_member != body.MemberEnd() && err_member->value.IsUint64()) {
+            err_count = err_member->value.GetUint64();
+          }
+        }
+        // anything but a number of measurements is not an answer we understand
+        if (err_count <= num_measurements) {
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
             invalidMetrics_->Add(err_count);
             sentMetrics_->Add(static_cast<double>(num_measurements - err_count));
           }
-          auto messages = body["message"].GetArray();
-          for (auto& msg : messages) {
-            err_messages->emplace(
-                std::string(msg.GetString(), msg.GetStringLength()));
+          auto messages = body.FindMember("message");
+          if (messages != body.MemberEnd() && messages->value.IsArray()) {
+            for (const auto& msg : messages->value.GetArray()) {
+              if (msg.IsString()) {
+                err_messages->emplace(
+                    std::string(msg.GetString(), msg.GetStringLength()));
+              }
+            }
           }
         } else {
-          logger->error("Missing errorCount field in JSON response from {}: {}",
+          logger->error("Missing or invalid errorCount field in JSON response from {}: {}",
                         uri, http_code, http_response.raw_body);
           if (status_metrics_enabled) {
             droppedOther_->Add(num_measurements);
-- 
2.43.0


From 969b0c8787afc0a105426130e202ee9ab0562762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 24/24] fix: accept administrative changes only for hosts that
 name the local machine

---
 admin/admin_server.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 765d2c1..4f8e535 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -308,13 +308,22 @@ void DELETE_metrics(const std::string& type, HTTPServerRequest& req, HTTPServerR
   }
 }
 
+// whether the value of a Host header names the local machine, with or without a port
+bool is_local_host(const std::string& host) {
+  for (const std::string name : {"localhost", "127.0.0.1", "[::1]"}) {
+    if (host.compare(0, name.size(), name) == 0 &&
+        (host.size() == name.size() || host[name.size()] == ':')) {
+      return true;
+    }
+  }
+  return false;
+}
+
 void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& res) {
   this->logger->debug("AdminServer request for URI={}", req.getURI());
 
-  auto localhost_found =
-      req.getHost().rfind("localhost") != std::string::npos ||
-      req.getHost().rfind("127.0.0.1") != std::string::npos ||
-      req.getHost().rfind("[::1]") != std::string::npos;
+  // a request without a host is not from the local machine
+  auto localhost_found = is_local_host(req.get("Host", ""));
 
   if (req.getURI() == "/" && req.getMethod() == "GET") {
     // describe admin service
-- 
2.43.0

