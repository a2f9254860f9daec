From 19c072e8b41ef19c6588fea9629f2bc1644a6007 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 01/35] fix: pass exceptions of lazy sequences on instead of
 ending the sequence

A producer that failed looked like one that had no more elements:
generator and coro_it dropped the exception, and recursive_generator
dropped it when a nested sequence failed before its first element.
---
 include/soro/utls/coroutine/generator.h       | 20 +++++++--
 include/soro/utls/coroutine/iterator.h        | 41 +++++++++++++++----
 .../soro/utls/coroutine/recursive_generator.h |  5 ++-
 3 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/include/soro/utls/coroutine/generator.h b/include/soro/utls/coroutine/generator.h
index 9b41d6e..e2a72ea 100644
--- a/include/soro/utls/coroutine/generator.h
+++ b/include/soro/utls/coroutine/generator.h
@@ -57,7 +57,13 @@ public:
   }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() const {
+    if (exception_) {
+      std::rethrow_exception(exception_);
+    }
+  }
 
   reference_type value() const noexcept {
     return static_cast<reference_type>(*value_);
@@ -69,6 +75,7 @@ public:
 
 private:
   pointer_type value_{nullptr};
+  std::exception_ptr exception_{nullptr};
 };
 
 template <typename T, bool IsConst>
@@ -113,6 +120,7 @@ struct generator_iterator {
 
   generator_iterator& operator++() {
     coroutine_.resume();
+    coroutine_.promise().rethrow_if_exception();
     return *this;
   }
 
@@ -147,8 +155,14 @@ struct [[nodiscard]] generator {
     }
   }
 
-  iterator begin() noexcept { return iterator{coroutine_}; }
-  const_iterator begin() const noexcept { return const_iterator{coroutine_}; }
+  iterator begin() {
+    coroutine_.promise().rethrow_if_exception();
+    return iterator{coroutine_};
+  }
+  const_iterator begin() const {
+    coroutine_.promise().rethrow_if_exception();
+    return const_iterator{coroutine_};
+  }
 
   iterator end() noexcept { return {}; }
   const_iterator end() const noexcept { return {}; }
diff --git a/include/soro/utls/coroutine/iterator.h b/include/soro/utls/coroutine/iterator.h
index 6b6592f..e100dc7 100644
--- a/include/soro/utls/coroutine/iterator.h
+++ b/include/soro/utls/coroutine/iterator.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <exception>
+
 #include "soro/utls/coroutine/coro_namespace.h"
 
 namespace soro::utls {
@@ -22,7 +24,13 @@ struct value_promise {
   coro::suspend_always final_suspend() noexcept { return {}; }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() const {
+    if (exception_) {
+      std::rethrow_exception(exception_);
+    }
+  }
 
   coro::suspend_always yield_value(reference_t v) noexcept {
     v_ = v;
@@ -39,6 +47,7 @@ struct value_promise {
 
 private:
   value_t v_{};
+  std::exception_ptr exception_{nullptr};
 };
 
 template <typename T>
@@ -57,7 +66,13 @@ struct reference_promise {
   coro::suspend_always final_suspend() noexcept { return {}; }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() const {
+    if (exception_) {
+      std::rethrow_exception(exception_);
+    }
+  }
 
   coro::suspend_always yield_value(reference_t v) noexcept {
     v_ = std::addressof(v);
@@ -77,6 +92,7 @@ struct reference_promise {
 
 private:
   pointer_t v_{nullptr};
+  std::exception_ptr exception_{nullptr};
 };
 
 }  // namespace detail
@@ -104,17 +120,19 @@ struct coro_it {
     }
   }
 
-  coro_it& operator++() noexcept {
+  coro_it& operator++() {
     co_handle_.resume();
     return *this;
   }
 
-  friend bool operator==(coro_it const& it1, coro_it const& it2) noexcept {
-    return (!it1.co_handle_ && it2.co_handle_.done()) ||
-           (!it2.co_handle_ && it1.co_handle_.done());
+  // A coroutine that was left by an exception has no end to compare with, the
+  // exception is passed on instead.
+  friend bool operator==(coro_it const& it1, coro_it const& it2) {
+    return (!it1.co_handle_ && it2.is_done()) ||
+           (!it2.co_handle_ && it1.is_done());
   }
 
-  friend bool operator!=(coro_it const& it1, coro_it const& it2) noexcept {
+  friend bool operator!=(coro_it const& it1, coro_it const& it2) {
     return !(it1 == it2);
   }
 
@@ -123,6 +141,15 @@ struct coro_it {
   pointer_t operator->() const noexcept { return std::addressof(operator*()); }
 
 private:
+  bool is_done() const {
+    if (!co_handle_.done()) {
+      return false;
+    }
+
+    co_handle_.promise().rethrow_if_exception();
+    return true;
+  }
+
   co_handle_t co_handle_{nullptr};
 };
 
diff --git a/include/soro/utls/coroutine/recursive_generator.h b/include/soro/utls/coroutine/recursive_generator.h
index b08d48a..90dc379 100644
--- a/include/soro/utls/coroutine/recursive_generator.h
+++ b/include/soro/utls/coroutine/recursive_generator.h
@@ -55,11 +55,11 @@ public:
       return {};
     }
 
-    auto yield_value(recursive_generator&& generator) noexcept {
+    auto yield_value(recursive_generator&& generator) {
       return yield_value(generator);
     }
 
-    auto yield_value(recursive_generator& generator) noexcept {
+    auto yield_value(recursive_generator& generator) {
       struct awaitable {
 
         awaitable(promise_type* childPromise) : m_childPromise(childPromise) {}
@@ -89,6 +89,7 @@ public:
         }
 
         m_root->m_parentOrLeaf = this;
+        generator.m_promise->throw_if_exception();
       }
 
       return awaitable{nullptr};
-- 
2.43.0


From faa3fdc0cccd5d9a9098088774fd8b8d60304790 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 02/35] fix: do not destroy the coroutine of a coro_it twice

The implicit copy shared the owning handle.
---
 include/soro/utls/coroutine/iterator.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/soro/utls/coroutine/iterator.h b/include/soro/utls/coroutine/iterator.h
index e100dc7..4ab36ba 100644
--- a/include/soro/utls/coroutine/iterator.h
+++ b/include/soro/utls/coroutine/iterator.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <exception>
+#include <memory>
+#include <utility>
 
 #include "soro/utls/coroutine/coro_namespace.h"
 
@@ -114,6 +116,19 @@ struct coro_it {
   coro_it(co_handle_t co_handle) noexcept  // NO LINT
       : co_handle_{std::move(co_handle)} {}
 
+  // owns the coroutine, a copy would destroy it a second time
+  coro_it(coro_it const&) = delete;
+  coro_it& operator=(coro_it const&) = delete;
+
+  coro_it(coro_it&& other) noexcept : co_handle_{other.co_handle_} {
+    other.co_handle_ = nullptr;
+  }
+
+  coro_it& operator=(coro_it&& other) noexcept {
+    std::swap(co_handle_, other.co_handle_);
+    return *this;
+  }
+
   ~coro_it() {
     if (co_handle_) {
       co_handle_.destroy();
-- 
2.43.0


From 5f25aced53a926fe3f22b9072c5309de72ffc85f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 03/35] fix: report file errors instead of writing or reading
 less than asked for

---
 include/soro/utls/file/binary_buffer_to_file.h | 4 +++-
 include/soro/utls/file/file_to_binary_buffer.h | 4 +++-
 include/soro/utls/file/loaded_file.h           | 4 +---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/soro/utls/file/binary_buffer_to_file.h b/include/soro/utls/file/binary_buffer_to_file.h
index ba629c5..c98851b 100644
--- a/include/soro/utls/file/binary_buffer_to_file.h
+++ b/include/soro/utls/file/binary_buffer_to_file.h
@@ -8,7 +8,9 @@ namespace soro::utls {
 
 inline void write_binary_buffer_to_file(std::filesystem::path const& fp,
                                         std::vector<unsigned char> const& buf) {
-  std::fstream out_file(fp, std::fstream::out | std::fstream::binary);
+  std::fstream out_file;
+  out_file.exceptions(std::fstream::failbit | std::fstream::badbit);
+  out_file.open(fp, std::fstream::out | std::fstream::binary);
   out_file.write(reinterpret_cast<char const*>(buf.data()),
                  static_cast<std::streamsize>(buf.size()));
   out_file.close();
diff --git a/include/soro/utls/file/file_to_binary_buffer.h b/include/soro/utls/file/file_to_binary_buffer.h
index 5d7db9f..f9c083c 100644
--- a/include/soro/utls/file/file_to_binary_buffer.h
+++ b/include/soro/utls/file/file_to_binary_buffer.h
@@ -7,7 +7,9 @@ namespace soro::utls {
 
 inline std::vector<unsigned char> read_file_to_binary_buffer(
     std::filesystem::path const& fp) {
-  std::fstream iss_file(fp, std::fstream::in | std::fstream::binary);
+  std::fstream iss_file;
+  iss_file.exceptions(std::fstream::failbit | std::fstream::badbit);
+  iss_file.open(fp, std::fstream::in | std::fstream::binary);
   std::vector<unsigned char> buffer(std::istreambuf_iterator<char>(iss_file),
                                     {});
   iss_file.close();
diff --git a/include/soro/utls/file/loaded_file.h b/include/soro/utls/file/loaded_file.h
index 4b6ea7e..cbc2666 100644
--- a/include/soro/utls/file/loaded_file.h
+++ b/include/soro/utls/file/loaded_file.h
@@ -14,9 +14,7 @@ inline std::string read_file_to_string(std::filesystem::path const& fp) {
   auto close_file = [](::FILE* f) { static_cast<void>(fclose(f)); };
   auto holder = std::unique_ptr<::FILE, decltype(close_file)>(
       fopen(fp.string().c_str(), "rb"), close_file);
-  if (!holder) {
-    return "";
-  }
+  utl::verify(holder != nullptr, "Could not open file {}", fp.string());
   ::FILE* f = holder.get();
 
   auto const size = static_cast<size_t>(std::filesystem::file_size(fp));
-- 
2.43.0


From 40871aaa2b16a53b53f424935a26800fa1a8c7cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 04/35] fix: report an exclusion set file that cannot be read

Open and read errors looked like an infrastructure without exclusions.
---
 src/infrastructure/exclusion/read_cliques.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/infrastructure/exclusion/read_cliques.cc b/src/infrastructure/exclusion/read_cliques.cc
index b38c49b..8f6272a 100644
--- a/src/infrastructure/exclusion/read_cliques.cc
+++ b/src/infrastructure/exclusion/read_cliques.cc
@@ -3,6 +3,7 @@
 #include <fstream>
 
 #include "utl/timer.h"
+#include "utl/verify.h"
 
 #include "soro/utls/parse_int.h"
 #include "soro/utls/std_wrapper/sort.h"
@@ -16,7 +17,12 @@ soro::vector<interlocking_route::ids> read_cliques(
 
   soro::vector<interlocking_route::ids> cliques;
 
+  if (!std::filesystem::exists(clique_fp)) {
+    return cliques;
+  }
+
   std::ifstream in(clique_fp);
+  utl::verify(in.is_open(), "could not open {}", clique_fp.string());
 
   for (std::string line; getline(in, line);) {
     auto const split = utls::split(line, " ");
@@ -26,6 +32,8 @@ soro::vector<interlocking_route::ids> read_cliques(
     }));
   }
 
+  utl::verify(!in.bad(), "could not read {}", clique_fp.string());
+
   for (auto& clique : cliques) {
     utls::sort(clique);
   }
-- 
2.43.0


From 848d06e24abff4fc38d5a7dc3755f1d69da97047 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 05/35] fix: order simultaneous route usages the same way in
 every exclusion set

Sorting by start time only lets two exclusion sets order the same pair of
simultaneous usages differently, which makes the ordering graph cyclic.
---
 src/simulation/ordering/ordering_graph.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index fa553f4..e8e1f75 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -182,17 +182,16 @@ ordering_graph::ordering_graph(infra::infrastructure const& infra,
 
   utl::parallel_for(orderings, [](auto&& usage_order) {
     utls::sort(usage_order, [](auto&& usage1, auto&& usage2) {
-      return usage1.from_ < usage2.from_;
+      // break ties by id, such that all orderings agree on the order of two
+      // usages starting at the same time
+      return std::tie(usage1.from_, usage1.id_) <
+             std::tie(usage2.from_, usage2.id_);
     });
   });
 
   // create edges according to the sorted orderings
   for (auto const& usage_order : orderings) {
     for (auto [from, to] : utl::pairwise(usage_order)) {
-      // if the .from timestamps for the orderings are equal then we are just
-      // betting that we don't introduce a cycle into the ordering graph
-      //      utls::sassert(from.from_ != to.from_, "from and to are equal");
-
       nodes_[from.id_].out_.emplace_back(to.id_);
       nodes_[to.id_].in_.emplace_back(from.id_);
     }
-- 
2.43.0


From 29166c98f61d67199e2254cb83f1bd2bf2831599 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 06/35] fix: ordering_node::next returns the next node of the
 same trip

The first outgoing edge may belong to another train.
---
 src/simulation/ordering/ordering_graph.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index e8e1f75..5231f38 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -218,13 +218,15 @@ std::span<const ordering_node> ordering_graph::trip_nodes(
 }
 
 ordering_node const& ordering_node::next(ordering_graph const& og) const {
+  // the nodes of a trip have consecutive ids, whereas out_ also contains nodes
+  // of other trains and misses the next node if it is implied by other edges
   utls::sasserts([this, &og] {
-    utls::sassert(!out_.empty(), "no next node");
-    auto const& next = og.nodes_[out_.front()];
-    utls::sassert(next.train_id_ == train_id_, "next node not same train");
+    utls::sassert(id_ + 1 < og.nodes_.size(), "no next node");
+    utls::sassert(og.nodes_[id_ + 1].train_id_ == train_id_,
+                  "next node not same train");
   });
 
-  return og.nodes_[out_.front()];
+  return og.nodes_[id_ + 1];
 }
 
 }  // namespace soro::simulation
\ No newline at end of file
-- 
2.43.0


From 57ddee2ee82899291ca07a1a5117903c5038f9e6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:24:41 +0000
Subject: [PATCH 07/35] fix: exclusion graph without a known hardware
 concurrency

---
 src/infrastructure/exclusion/get_exclusion.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/exclusion/get_exclusion.cc b/src/infrastructure/exclusion/get_exclusion.cc
index b8fc49d..c8cfb15 100644
--- a/src/infrastructure/exclusion/get_exclusion.cc
+++ b/src/infrastructure/exclusion/get_exclusion.cc
@@ -1,5 +1,8 @@
 #include "soro/infrastructure/exclusion/get_exclusion.h"
 
+#include <algorithm>
+#include <thread>
+
 #include "utl/concat.h"
 #include "utl/enumerate.h"
 #include "utl/erase_duplicates.h"
@@ -43,7 +46,8 @@ soro::vector<interlocking_route::ids> get_closed_element_used_by(
   result_t element_used_by(element_count);
 
   // Set up the thread results ...
-  auto const thread_count = std::thread::hardware_concurrency();
+  // hardware_concurrency returns 0 if the value is not computable
+  auto const thread_count = std::max(1U, std::thread::hardware_concurrency());
   soro::vector<result_t> thread_results(thread_count, result_t(element_count));
 
   // ... thread lambda ...
-- 
2.43.0


From 5ae43a26f9832180984291eae2c840fddd963a5f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 08/35] fix: include trips of earlier service days that are
 still running

train::departures(interval) started at the service day of the interval's start
and missed trips that crossed midnight.
---
 src/timetable/train.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/timetable/train.cc b/src/timetable/train.cc
index e314edd..1e7bbe6 100644
--- a/src/timetable/train.cc
+++ b/src/timetable/train.cc
@@ -21,11 +21,19 @@ bool train_node::omitted() const {
   return omitted_ || (node_->is(type::HALT) && !sequence_point_.has_value());
 }
 
+// the earliest time a trip overlapping the interval can be anchored at, a trip
+// arrives up to last_arrival() after its service day has begun
+absolute_time first_anchor(train const& train, interval const& interval) {
+  return interval.start_ - std::min(interval.start_.time_since_epoch(),
+                                    train.last_arrival());
+}
+
 train::iterator::iterator(train const* train, interval const& interval,
                           bool const end)
     : train_{train},
-      bitfield_it_(end ? train->service_days_.to(interval.end_)
-                       : train->service_days_.from(interval.start_)),
+      bitfield_it_(
+          end ? train->service_days_.to(interval.end_)
+              : train->service_days_.from(first_anchor(*train, interval))),
       interval_{interval} {
   advance();
 }
-- 
2.43.0


From 83ee1d60668554d1639ee8c4242e2500cc085cc5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 09/35] fix: read kss timetable files in name order, ignoring
 other files

---
 .../parsers/kss/parse_kss_timetable.cc        | 43 ++++++++++++-------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index a45d802..e220e16 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -1,5 +1,6 @@
 #include "soro/timetable/parsers/kss/parse_kss_timetable.h"
 
+#include <algorithm>
 #include <string_view>
 
 #include "pugixml.hpp"
@@ -36,6 +37,21 @@ bool is_kss_file(fs::path const& p) {
          p.filename().string().starts_with("KSS-");
 }
 
+// the kss files of the timetable by name, independent of the directory order
+std::vector<fs::path> get_kss_files(timetable_options const& opts) {
+  std::vector<fs::path> result;
+
+  for (auto const& dir_entry : fs::directory_iterator{opts.timetable_path_}) {
+    if (is_kss_file(dir_entry.path())) {
+      result.emplace_back(dir_entry.path());
+    }
+  }
+
+  std::sort(std::begin(result), std::end(result));
+
+  return result;
+}
+
 bool is_kss_timetable(timetable_options const& opts) {
   if (!std::filesystem::is_directory(opts.timetable_path_)) {
     return false;
@@ -504,21 +520,19 @@ void set_ids(soro::vector<train>& trains) {
   }
 }
 
-infra::version get_required_infra_version(timetable_options const& opts) {
-  utls::expect(fs::is_directory(opts.timetable_path_),
-               "timetable path {} is not a directory", opts.timetable_path_);
-  utls::expect(!fs::is_empty(opts.timetable_path_),
-               "timetable path {} is empty", opts.timetable_path_);
+infra::version get_required_infra_version(
+    std::vector<fs::path> const& kss_files) {
+  utl::verify(!kss_files.empty(), "no kss files in timetable");
 
-  auto const first_fp = begin(fs::directory_iterator{opts.timetable_path_});
-  auto const first_file = utls::load_file(first_fp->path());
+  auto const& first_fp = kss_files.front();
+  auto const first_file = utls::load_file(first_fp);
 
   xml_document tt_xml;
   auto success = tt_xml.load_buffer(
       reinterpret_cast<void const*>(first_file.data()), first_file.size());
   utl::verify(success,
-              "pugixml error '{}' while parsing {} from kss timetable {}!",
-              success.description(), *first_fp);
+              "pugixml error '{}' while parsing {} from kss timetable!",
+              success.description(), first_fp);
 
   auto const version_xml =
       tt_xml.child("KSS").child("header").child("spurplanVersionDescription");
@@ -545,7 +559,8 @@ interval get_interval(soro::vector<train> const& trains) {
 
 utls::result<base_timetable> parse_kss_timetable(
     timetable_options const& opts, infra::infrastructure const& infra) {
-  auto const required_version = get_required_infra_version(opts);
+  auto const kss_files = get_kss_files(opts);
+  auto const required_version = get_required_infra_version(kss_files);
 
   if (required_version != infra->version_) {
     return utls::unexpected(error::kss::INFRASTRUCTURE_VERSION_MISMATCH);
@@ -564,12 +579,8 @@ utls::result<base_timetable> parse_kss_timetable(
 
   std::vector<work_item> work_todo;
 
-  for (auto const& dir_entry : fs::directory_iterator{opts.timetable_path_}) {
-    if (!is_kss_file(dir_entry.path())) {
-      continue;
-    }
-
-    work_todo.emplace_back(work_item{dir_entry.path(), {}});
+  for (auto const& kss_file : kss_files) {
+    work_todo.emplace_back(work_item{kss_file, {}});
   }
 
   utl::parallel_for_run(work_todo.size(), [&](auto&& work_id) {
-- 
2.43.0


From bb2c8aa66fc9d268db187a03192e70ee0e2f1f0f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 10/35] fix: do not hang on a kss train without service days

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index e220e16..b52b61e 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -550,6 +550,11 @@ interval get_interval(soro::vector<train> const& trains) {
   interval result{.start_ = absolute_time::max(), .end_ = absolute_time::min()};
 
   for (auto const& train : trains) {
+    // a train without service days has neither a departure nor an arrival
+    if (train.service_days_.count() == 0) {
+      continue;
+    }
+
     result.start_ = std::min(result.start_, train.first_absolute_departure());
     result.end_ = std::max(result.end_, train.last_absolute_arrival());
   }
-- 
2.43.0


From a6782cda5b6ae0e6dc132d797ac6a6dfc1547ed9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 11/35] fix: report the reason why a kss file cannot be parsed

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index b52b61e..35efa2a 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -494,7 +494,7 @@ utls::result<soro::vector<train>> parse_timetable_file(
       reinterpret_cast<void const*>(loaded_file.data()), loaded_file.size());
 
   utl::verify(success,
-              "pugixml error '{}' while parsing {} from kss timetable {}!",
+              "pugixml error '{}' while parsing {} from kss timetable!",
               success.description(), fp);
 
   auto const timetable_xml =
-- 
2.43.0


From bae8463ebce1f10e56f3e2f6820138ee3304ddec Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 12/35] fix: no interlocking statistics without interlocking
 routes

---
 src/infrastructure/interlocking/get_interlocking.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/interlocking/get_interlocking.cc b/src/infrastructure/interlocking/get_interlocking.cc
index b4d2d8a..69400a9 100644
--- a/src/infrastructure/interlocking/get_interlocking.cc
+++ b/src/infrastructure/interlocking/get_interlocking.cc
@@ -273,6 +273,11 @@ void print_interlocking_stats(soro::vector<interlocking_route> const& irs) {
   }
 
   uLOG(utl::info) << "Generated " << irs.size() << " interlocking routes.";
+
+  if (irs.empty()) {
+    return;
+  }
+
   uLOG(utl::info) << "Average length in station routes of an interlocking: "
                   << length_in_srs / irs.size();
 }
-- 
2.43.0


From dd39e25098ab090bd256d76059e6ff6b55901174 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 13/35] fix: import an infrastructure given by its Index.xml

---
 src/infrastructure/parsers/iss/iss_files.cc |  2 +-
 src/infrastructure/parsers/iss/parse_iss.cc | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infrastructure/parsers/iss/iss_files.cc b/src/infrastructure/parsers/iss/iss_files.cc
index 04de0fd..d70c131 100644
--- a/src/infrastructure/parsers/iss/iss_files.cc
+++ b/src/infrastructure/parsers/iss/iss_files.cc
@@ -51,7 +51,7 @@ iss_files get_iss_files(std::filesystem::path const& fp) {
   if (fp.extension() == ".iss") {
     throw utl::fail("archives are currently not supported.");
   } else if (fp.filename().string() == "Index.xml") {
-    return iss_files(fp.parent_path());
+    return iss_files(fp);
   } else if (is_directory(fp) && exists(fp / "Index.xml")) {
     return iss_files(fp / "Index.xml");
   } else if (is_directory(fp) && !exists(fp / "Index.xml")) {
diff --git a/src/infrastructure/parsers/iss/parse_iss.cc b/src/infrastructure/parsers/iss/parse_iss.cc
index b42afd1..dd865c9 100644
--- a/src/infrastructure/parsers/iss/parse_iss.cc
+++ b/src/infrastructure/parsers/iss/parse_iss.cc
@@ -1216,6 +1216,12 @@ infrastructure_t parse_iss(infrastructure_options const& options) {
   utl::scoped_timer const parse_timer("Parsing ISS");
   auto const iss_files = get_iss_files(options.infrastructure_path_);
 
+  // the given path is either the infrastructure directory or its index file
+  auto const infrastructure_dir =
+      is_directory(options.infrastructure_path_)
+          ? options.infrastructure_path_
+          : options.infrastructure_path_.parent_path();
+
   auto [iss, mats] = parse_iss(iss_files.rail_plan_files_);
 
   iss.version_ = parse_version(iss_files.index_);
@@ -1257,13 +1263,13 @@ infrastructure_t parse_iss(infrastructure_options const& options) {
 
   if (options.interlocking_ && options.exclusions_) {
     iss.exclusion_ =
-        get_exclusion(iss, options.infrastructure_path_ / "exclusion_sets",
+        get_exclusion(iss, infrastructure_dir / "exclusion_sets",
                       options.exclusion_elements_, options.exclusion_graph_);
   }
 
   log_stats(iss);
 
-  iss.source_ = options.infrastructure_path_.filename().string();
+  iss.source_ = infrastructure_dir.filename().string();
 
   return std::move(iss);
 }
-- 
2.43.0


From 12087467f3e5100005a94e58a4d6a9caaa71fd4c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 14/35] fix: import without a station coordinates file

---
 src/infrastructure/parsers/parse_station_coords.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infrastructure/parsers/parse_station_coords.cc b/src/infrastructure/parsers/parse_station_coords.cc
index c15d047..812a6a5 100644
--- a/src/infrastructure/parsers/parse_station_coords.cc
+++ b/src/infrastructure/parsers/parse_station_coords.cc
@@ -18,14 +18,14 @@ using namespace soro::utls;
 soro::vector<gps> parse_station_coords(
     std::filesystem::path const& gps_path,
     soro::map<soro::string, station::ptr> const& ds100_to_station) {
+  soro::vector<gps> station_coords(
+      static_cast<uint32_t>(ds100_to_station.size()));
+
   if (!std::filesystem::exists(gps_path)) {
     uLOG(warn) << "GPS coordinate path '" << gps_path << "' does not exist.";
-    return {};
+    return station_coords;
   }
 
-  soro::vector<gps> station_coords(
-      static_cast<uint32_t>(ds100_to_station.size()));
-
   auto const gps_content = utls::read_file_to_string(gps_path);
 
   struct row {
-- 
2.43.0


From 2aa57d0e2bd7b832826f404f6a2f01574020577a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 15/35] fix: report exclusion sets of unknown interlocking
 routes

---
 src/infrastructure/exclusion/get_exclusion.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/infrastructure/exclusion/get_exclusion.cc b/src/infrastructure/exclusion/get_exclusion.cc
index c8cfb15..b631c3f 100644
--- a/src/infrastructure/exclusion/get_exclusion.cc
+++ b/src/infrastructure/exclusion/get_exclusion.cc
@@ -26,6 +26,10 @@ soro::vector<soro::vector<exclusion_set::id>> get_irs_to_exclusion_sets(
 
   for (auto const [id, exclusion_set] : utl::enumerate(exclusion_sets)) {
     for (auto const ir_id : exclusion_set) {
+      utl::verify(ir_id < interlocking_route_count,
+                  "exclusion set {} contains unknown interlocking route {}", id,
+                  ir_id);
+
       irs_to_exclusion_sets[ir_id].emplace_back(
           static_cast<exclusion_set::id>(id));
     }
-- 
2.43.0


From 9a568067a08db3a7f92e2ab90b75fd2e0f498acc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 16/35] fix: extra speed limits of a station route apply
 exactly at their nodes

---
 src/infrastructure/station/station_route.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/infrastructure/station/station_route.cc b/src/infrastructure/station/station_route.cc
index 74b63a7..29c22b8 100644
--- a/src/infrastructure/station/station_route.cc
+++ b/src/infrastructure/station/station_route.cc
@@ -160,21 +160,24 @@ utls::recursive_generator<route_node> station_route::from_to(
 
   for (; node_idx < to; ++node_idx) {
     result.node_ = nodes(node_idx);
+    result.extra_spl_ = std::nullopt;
 
     result.omitted_ = omit_idx < omitted_nodes_.size() &&
                       omitted_nodes_[omit_idx] == node_idx;
 
+    bool const extra_spl =
+        spl_idx < extra_speed_limits_.size() &&
+        extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
+
     if (result.omitted_) {
       ++omit_idx;
-    } else {
-      bool const extra_spl =
-          spl_idx < extra_speed_limits_.size() &&
-          extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
-
-      if (extra_spl) {
-        result.extra_spl_ =
-            speed_limit::optional_ptr(&extra_speed_limits_[spl_idx++]);
-      }
+    } else if (extra_spl) {
+      result.extra_spl_ =
+          speed_limit::optional_ptr(&extra_speed_limits_[spl_idx]);
+    }
+
+    if (extra_spl) {
+      ++spl_idx;
     }
 
     co_yield result;
-- 
2.43.0


From 653b693620436a12e06fd5b45ad51798cdae0a85 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 17/35] fix: interpolated station positions do not depend on
 memory addresses

---
 src/infrastructure/station/station.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/station/station.cc b/src/infrastructure/station/station.cc
index b224bc8..deee11f 100644
--- a/src/infrastructure/station/station.cc
+++ b/src/infrastructure/station/station.cc
@@ -1,5 +1,7 @@
 #include "soro/infrastructure/station/station.h"
 
+#include <functional>
+
 #include "range/v3/action/sort.hpp"
 #include "range/v3/action/unique.hpp"
 #include "range/v3/range/conversion.hpp"
@@ -10,7 +12,8 @@ namespace soro::infra {
 soro::vector<station::ptr> station::neighbours() const {
   return borders_ |
          ranges::views::transform([](auto&& b) { return b.neighbour_; }) |
-         ranges::to<soro::vector<station::ptr>>() | ranges::actions::sort |
+         ranges::to<soro::vector<station::ptr>>() |
+         ranges::actions::sort(std::less{}, [](auto&& s) { return s->id_; }) |
          ranges::actions::unique;
 }
 
-- 
2.43.0


From d4962f5c7d30c74c2c992f9e03084809bb8ab850 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 18/35] fix: refuse trains that cannot move instead of
 calculating forever

---
 src/runtime/runtime_physics.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/runtime_physics.cc b/src/runtime/runtime_physics.cc
index e213c91..e3fc380 100644
--- a/src/runtime/runtime_physics.cc
+++ b/src/runtime/runtime_physics.cc
@@ -11,6 +11,8 @@ namespace soro {
 using namespace soro::si;
 
 runtime_results coast(speed const current_speed, length const distance) {
+  utl::verify(current_speed > ZERO<speed>, "A standing train cannot coast!");
+
   auto const total_time = distance / current_speed;
 
   runtime_results coasting_results;
@@ -97,6 +99,9 @@ runtime_results accelerate(rs::train_physics const& tp,
     current_distance += (prev_speed + current_speed) * 0.5 * DELTA_T;
     current_time += DELTA_T;
 
+    utl::verify(current_speed > ZERO<speed>,
+                "The tractive force is too small to move the train!");
+
     rr.emplace_back(current_time, current_distance, current_speed);
   }
 
-- 
2.43.0


From c4057c3f6f98814a2859b92228fbb6da99461cfc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 19/35] fix: speed limits from the last signal on start at that
 signal

---
 src/runtime/interval.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runtime/interval.cc b/src/runtime/interval.cc
index b61af2d..a451a4b 100644
--- a/src/runtime/interval.cc
+++ b/src/runtime/interval.cc
@@ -211,10 +211,6 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
       current_limit = (*spl_duo.here_)->limit_;
     }
 
-    if (tn.node_->is(type::MAIN_SIGNAL)) {
-      last_ms = list.size();
-    }
-
     if (event_types.contains(tn.node_->type())) {
       current_events.emplace_back(tn.node_, current_distance);
     }
@@ -237,6 +233,12 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
       prev_limit = current_limit;
       current_events = {};
     }
+
+    // the signal is part of the last interval, even when it shares its
+    // kilometrage with the previous border
+    if (tn.node_->is(type::MAIN_SIGNAL)) {
+      last_ms = list.size() - 1;
+    }
   }
 
   while (adjust_speed_limits(list, train.physics_))
-- 
2.43.0


From 47a38566901638ffa88d87f39f6b89b0291a65a9 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 20/35] fix: match interlocking routes that reach beyond the
 stop sequence

An interlocking route starting in an earlier station route than the train
was compared from its first station route, so that every such route looked
equally unfit and the train was refused, or the position in the stop
sequence was computed out of its bounds. One going on past the last stop
made the import refuse the train as well.
---
 .../station_route_to_interlocking_route.cc    | 84 +++++++++++--------
 1 file changed, 50 insertions(+), 34 deletions(-)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index adb5f39..5712cee 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -1,12 +1,14 @@
 #include "soro/timetable/parsers/station_route_to_interlocking_route.h"
 
+#include <algorithm>
+#include <optional>
+
 #include "soro/utls/result.h"
 #include "utl/concat.h"
 #include "utl/logging.h"
 
 #include "soro/utls/algo/sort_and_intersect.h"
 #include "soro/utls/std_wrapper/count_if.h"
-#include "soro/utls/std_wrapper/find_position.h"
 
 #include "soro/infrastructure/interlocking/interlocking_route.h"
 #include "soro/timetable/parsers/route_transform_error.h"
@@ -19,9 +21,12 @@ using namespace soro::infra;
 auto get_prefix_length(interlocking_route const& interlocking_route,
                        stop_sequence const& stop_sequence,
                        std::size_t const sr_offset) {
-  auto sr1 = interlocking_route.station_routes_.begin();
   auto sr2 = std::begin(stop_sequence.points_) +
              static_cast<std::ptrdiff_t>(sr_offset);
+  // the interlocking route possibly starts in an earlier station route
+  auto sr1 = std::find(std::begin(interlocking_route.station_routes_),
+                       std::end(interlocking_route.station_routes_),
+                       (*sr2).station_route_);
 
   std::size_t prefix_length = 0;
 
@@ -87,6 +92,35 @@ struct cover {
   std::size_t node_idx_{0};
 };
 
+// the cover after using an interlocking route, which follows prefix_length
+// station routes of the stop sequence starting at sr_offset
+std::optional<cover> get_cover(interlocking_route const& ir,
+                               stop_sequence const& ss,
+                               std::size_t const sr_offset,
+                               std::size_t const prefix_length,
+                               infrastructure const& infra) {
+  auto const last = sr_offset + prefix_length - 1;
+  auto const last_sr_id = ss.points_[last].station_route_;
+  auto const last_sr = infra->station_routes_[last_sr_id];
+
+  if (ir.last_sr_id() != last_sr_id) {
+    // the interlocking route goes on to another station route, which it only
+    // may do when there is nothing left to follow
+    return last + 1 == ss.points_.size()
+               ? std::optional{cover{last, last_sr->size()}}
+               : std::nullopt;
+  }
+
+  // when the ends align we have completely inserted the station route into the
+  // interlocking path, so we can move on to the next station route
+  if (ir.last_node(infra) == last_sr->nodes().back() &&
+      last + 1 != ss.points_.size()) {
+    return cover{last + 1, 0};
+  }
+
+  return cover{last, ir.end_offset_};
+}
+
 // for a given stop sequence and a given current cover, find all possible next
 // interlocking routes
 interlocking_route::ids get_candidates(stop_sequence const& ss,
@@ -129,7 +163,7 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
                                     infrastructure const& infra) {
   auto const& irs = infra->interlocking_;
 
-  cover ss_cover{.stop_sequence_offset_ = 0, .node_idx_ = 0};
+  cover const ss_cover{.stop_sequence_offset_ = 0, .node_idx_ = 0};
 
   auto const first_sr =
       infra->station_routes_[stop_sequence.points_.front().station_route_];
@@ -154,20 +188,15 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
 
   auto const& prefix_ir = irs.routes_[longest_prefix_routes.front()];
 
-  ss_cover.node_idx_ = prefix_ir.end_offset_;
-  if (current_longest_prefix == 0) {
-    ss_cover.stop_sequence_offset_ =
-        prefix_ir.station_routes_.size() -
-        utls::find_position(prefix_ir.station_routes_, first_sr->id_) - 1;
-  } else {
-    ss_cover.stop_sequence_offset_ = current_longest_prefix - 1;
-  }
+  auto const prefix_cover =
+      get_cover(prefix_ir, stop_sequence, 0, current_longest_prefix, infra);
 
-  if (longest_prefix_routes.size() == 1) {
-    return first_ir{.id_ = longest_prefix_routes.front(), .cover_ = ss_cover};
+  if (!prefix_cover) {
+    return std::unexpected(error::route_transform::NO_FIRST_IR);
   }
 
-  return std::unexpected(error::route_transform::NO_UNIQUE_FIRST_IR);
+  return first_ir{.id_ = longest_prefix_routes.front(),
+                  .cover_ = *prefix_cover};
 }
 
 soro::vector<sequence_point> get_sequence_points(interlocking_route const& ir,
@@ -249,28 +278,15 @@ utls::result<interlocking_transformation> transform_to_interlocking(
                             current_cover.stop_sequence_offset_ + prefix_length,
                             infra));
 
-    // the current cover + the current interlocking route cover more
-    // than the given stop sequence.
-    // thus, it is fully covered
-    if (current_cover.stop_sequence_offset_ +
-            current_ir->station_routes_.size() >
-        stop_sequence.points_.size()) {
-      break;
+    auto const next_cover =
+        get_cover(*current_ir, stop_sequence,
+                  current_cover.stop_sequence_offset_, prefix_length, infra);
+
+    if (!next_cover) {
+      return std::unexpected(error::route_transform::NO_IR);
     }
 
-    // true when the current interlocking route and the currently worked on
-    // station route end on the same node
-    auto const last_sr_id =
-        stop_sequence.points_[current_cover.stop_sequence_offset_]
-            .station_route_;
-    auto const ends_align = current_ir->last_node(infra) ==
-                            infra->station_routes_[last_sr_id]->nodes().back();
-
-    // when the ends align we have completely inserted the current station route
-    // into the interlocking path, so we can move on to the next station route
-    current_cover.stop_sequence_offset_ +=
-        ends_align ? prefix_length : prefix_length - 1;
-    current_cover.node_idx_ = current_ir->end_offset_;
+    current_cover = *next_cover;
   }
 
   utls::ensures([&] {
-- 
2.43.0


From f14082927f8570b27a1f496a3a1428da8e849f1b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 21/35] fix: search halts by both identifiers

The identifiers were mixed up: one present alone was replaced by the other,
empty one, and the operational one was found without its element type.
---
 web/server/src/modules/search/search_module.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/server/src/modules/search/search_module.cc b/web/server/src/modules/search/search_module.cc
index ec359e4..b119e69 100644
--- a/web/server/src/modules/search/search_module.cc
+++ b/web/server/src/modules/search/search_module.cc
@@ -107,12 +107,12 @@ search_module::context get_search_context(infra::infrastructure const& infra) {
       }
 
       if (!data.identifier_extern_.empty()) {
-        std::string const name(data.identifier_operational_);
-        ctx.results_.push_back({type, name, bb, id});
+        std::string const name(data.identifier_extern_);
+        ctx.results_.push_back({type, name, bb, id, type_str});
       }
 
       if (!data.identifier_operational_.empty()) {
-        std::string const name(data.identifier_extern_);
+        std::string const name(data.identifier_operational_);
         ctx.results_.push_back({type, name, bb, id, type_str});
       }
     }
-- 
2.43.0


From d5a3944891c87dea3429675d7674b2759e426cb4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 22/35] fix: OSM export divided by zero without known hardware
 concurrency

---
 web/server/src/modules/tiles/osm_export/osm_export.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/tiles/osm_export/osm_export.cc b/web/server/src/modules/tiles/osm_export/osm_export.cc
index b621a5d..a30e390 100644
--- a/web/server/src/modules/tiles/osm_export/osm_export.cc
+++ b/web/server/src/modules/tiles/osm_export/osm_export.cc
@@ -180,7 +180,9 @@ pugi::xml_document export_to_osm(soro::infra::infrastructure_t const& iss) {
 
   uLOG(info) << "[ OSM Export ] Stations and elements to OSM.";
   auto node_length = osm_info.nodes_.size();
-  std::size_t const thread_count = std::thread::hardware_concurrency();
+  // the hardware concurrency is 0 when it is not known
+  std::size_t const thread_count =
+      std::max(1U, std::thread::hardware_concurrency());
   std::size_t const unit = (node_length / thread_count) + 1;
   std::vector<std::future<pugi::xml_document>> docs;
 
-- 
2.43.0


From 098a2f5a0475980c532466617cdbd74196310ecf Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 23/35] fix: requests for unknown elements and exclusion sets
 read out of bounds

---
 web/server/src/modules/infrastructure/serve_element.cc    | 6 ++++++
 .../src/modules/infrastructure/serve_exclusion_set.cc     | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index 564aeab..26f0bee 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -46,6 +46,12 @@ net::web_server::string_res_t infrastructure_module::serve_element(
   }
 
   auto const e_id = utls::parse_int<element_id>(req.path_params_[1]);
+  if (e_id >= (**infra)->graph_.elements_.size()) {
+    uLOG(utl::warn) << "requesting element " << e_id << " but there are only "
+                    << (**infra)->graph_.elements_.size() << " elements";
+    return net::not_found_response(req);
+  }
+
   auto const& element = (**infra)->graph_.elements_[e_id];
 
   json_archive archive;
diff --git a/web/server/src/modules/infrastructure/serve_exclusion_set.cc b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
index c775048..5a32b44 100644
--- a/web/server/src/modules/infrastructure/serve_exclusion_set.cc
+++ b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
@@ -21,6 +21,14 @@ net::web_server::string_res_t infrastructure_module::serve_exclusion_set(
   }
 
   auto const es_id = utls::parse_int<exclusion_set::id>(req.path_params_[1]);
+  if (es_id >= (**infra)->exclusion_.exclusion_sets_.size()) {
+    uLOG(utl::warn) << "requesting exclusion set " << es_id
+                    << " but there are only "
+                    << (**infra)->exclusion_.exclusion_sets_.size()
+                    << " exclusion sets";
+    return net::not_found_response(req);
+  }
+
   auto const& es = (**infra)->exclusion_.exclusion_sets_[es_id];
 
   json_archive archive;
-- 
2.43.0


From 67ba2ccf0b34bfc728ad4d0357b8e80fa500069a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 24/35] fix: timetables of an unknown infrastructure are not
 found

---
 .../src/modules/timetable/serve_timetable_names.cc       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/timetable/serve_timetable_names.cc b/web/server/src/modules/timetable/serve_timetable_names.cc
index c3744a9..2176df2 100644
--- a/web/server/src/modules/timetable/serve_timetable_names.cc
+++ b/web/server/src/modules/timetable/serve_timetable_names.cc
@@ -1,5 +1,7 @@
 #include "soro/server/modules/timetable/timetable_module.h"
 
+#include "net/web_server/responses.h"
+
 #include "soro/server/cereal/cereal_extern.h"
 #include "soro/server/cereal/json_archive.h"
 
@@ -7,7 +9,12 @@ namespace soro::server {
 
 net::web_server::string_res_t timetable_module::serve_timetable_names(
     net::query_router::route_request const& req) const {
-  auto const& context = this->contexts_.at(req.path_params_.front());
+  auto const context_it = contexts_.find(req.path_params_.front());
+  if (context_it == std::end(contexts_)) {
+    return net::not_found_response(req);
+  }
+
+  auto const& context = context_it->second;
 
   json_archive archive;
   archive.add()(cereal::make_nvp("timetables",
-- 
2.43.0


From cdf431c1a50a3c07f9c1f0aacf98548fdd0f527a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 25/35] fix: report OSM files that cannot be written, never
 leave partial ones

---
 .../src/modules/tiles/osm_export/osm_export.cc     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/tiles/osm_export/osm_export.cc b/web/server/src/modules/tiles/osm_export/osm_export.cc
index a30e390..e59e9df 100644
--- a/web/server/src/modules/tiles/osm_export/osm_export.cc
+++ b/web/server/src/modules/tiles/osm_export/osm_export.cc
@@ -1,9 +1,11 @@
 #include "soro/server/modules/tiles/osm_export/osm_export.h"
 
+#include <fstream>
 #include <future>
 
 #include "utl/logging.h"
 #include "utl/overloaded.h"
+#include "utl/verify.h"
 
 #include "soro/server/modules/tiles/osm_export/interpolation.h"
 #include "soro/server/modules/tiles/osm_export/osm_tag_names.h"
@@ -216,7 +218,17 @@ pugi::xml_document export_to_osm(soro::infra::infrastructure_t const& iss) {
 }
 
 void write_osm_to_file(pugi::xml_document const& osm_xml, fs::path const& out) {
-  osm_xml.save_file(out.c_str());
+  // the file appears only once it is complete
+  auto tmp = out;
+  tmp += ".tmp";
+
+  std::ofstream file{tmp, std::ios::binary};
+  osm_xml.save(file);
+  file.close();
+  utl::verify(!file.fail(), "could not write OSM file {}", tmp.string());
+
+  fs::rename(tmp, out);
+
   uLOG(info) << "[ OSM Export ] Exported file successfully to " << out << ".";
 }
 
-- 
2.43.0


From 5127b3550e5c1802365fc7b5301c5fe7b99489f5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 26/35] fix: import tiles again when the last import did not
 finish

---
 web/server/src/modules/tiles/tiles_module.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/web/server/src/modules/tiles/tiles_module.cc b/web/server/src/modules/tiles/tiles_module.cc
index dc6074a..7872a4f 100644
--- a/web/server/src/modules/tiles/tiles_module.cc
+++ b/web/server/src/modules/tiles/tiles_module.cc
@@ -1,5 +1,7 @@
 #include "soro/server/modules/tiles/tiles_module.h"
 
+#include <fstream>
+
 #include "net/web_server/responses.h"
 
 #include "tiles/get_tile.h"
@@ -69,11 +71,17 @@ fs::path create_tiles_db(server_settings const& s,
       (s.tiles_dir() / static_cast<std::string_view>(infra->source_))
           .replace_extension(".mdb");
 
+  // marks databases whose import was not interrupted
+  auto const complete_path = fs::path{tile_db_path}.replace_extension(".done");
+
   if (s.regenerate_.val() || !fs::exists(tile_db_path) ||
+      !fs::exists(complete_path) ||
       last_write_time(osm_path) > last_write_time(tile_db_path)) {
     import_settings const import_settings(osm_path, tile_db_path, s.tmp_dir(),
                                           s.profile_file());
+    fs::remove(complete_path);
     import_tiles(import_settings);
+    std::ofstream{complete_path};
   }
 
   return tile_db_path;
-- 
2.43.0


From 48e0738971d373867c9f332beb8f8fc3fc9955fb Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 27/35] fix: elements without a speed limit are valid JSON

---
 web/server/src/modules/infrastructure/serve_element.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index 26f0bee..910185c 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -27,7 +27,12 @@ void add_data_to_cereal_archive(Archive& archive, element_data_t const& ed) {
         archive(cereal::make_nvp("id_op", halt.identifier_operational_));
       },
       [&](speed_limit const& limit) {
-        archive(cereal::make_nvp("limit", si::as_km_h(limit.limit_)));
+        if (si::valid(limit.limit_)) {
+          archive(cereal::make_nvp("limit", si::as_km_h(limit.limit_)));
+        } else {
+          // there is no NaN in JSON
+          archive(cereal::make_nvp("limit", nullptr));
+        }
         archive(cereal::make_nvp("point_of_activation", limit.poa_));
       },
       [&](main_signal const& ms) {
-- 
2.43.0


From c3fcbc687417732c23162718df10894d0e69bd9b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 28/35] fix: report an exclusion graph file that cannot be
 written

---
 tools/export_exclusion_graph/src/export_exclusion_graph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/export_exclusion_graph/src/export_exclusion_graph.cc b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
index e321213..c1ac0d6 100644
--- a/tools/export_exclusion_graph/src/export_exclusion_graph.cc
+++ b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
@@ -34,7 +34,9 @@ int failed_parsing() {
 }
 
 void write_out(exclusion_graph const& eg, std::filesystem::path const& out) {
-  std::ofstream outfile(out);
+  std::ofstream outfile;
+  outfile.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+  outfile.open(out);
 
   for (auto const [from, node] : utl::enumerate(eg.nodes_)) {
     for (auto const to : node) {
-- 
2.43.0


From b4f4d74facb862f5af16dac2172fb114cba6ed9e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 29/35] fix: the exclusion graph export needs the exclusion
 elements

---
 tools/export_exclusion_graph/src/export_exclusion_graph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/export_exclusion_graph/src/export_exclusion_graph.cc b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
index c1ac0d6..30ccd0e 100644
--- a/tools/export_exclusion_graph/src/export_exclusion_graph.cc
+++ b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
@@ -71,6 +71,7 @@ int main(int argc, char const** argv) {
   opts.layout_ = false;
   opts.interlocking_ = true;
   opts.exclusions_ = true;
+  opts.exclusion_elements_ = true;
   opts.exclusion_graph_ = true;
 
   infrastructure const infra(opts);
-- 
2.43.0


From e337f1fa96984706e7df2149c8a2e5895171bf90 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 00:39:41 +0000
Subject: [PATCH 30/35] fix: export each exclusion once, also for routes ending
 where they start

---
 tools/export_exclusion_graph/src/export_exclusion_graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/export_exclusion_graph/src/export_exclusion_graph.cc b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
index 30ccd0e..727185a 100644
--- a/tools/export_exclusion_graph/src/export_exclusion_graph.cc
+++ b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
@@ -40,7 +40,7 @@ void write_out(exclusion_graph const& eg, std::filesystem::path const& out) {
 
   for (auto const [from, node] : utl::enumerate(eg.nodes_)) {
     for (auto const to : node) {
-      if (from == to) {
+      if (to >= from) {
         break;
       }
 
-- 
2.43.0


From d823bb405ecf14aafb05b271315a606c9b636eb0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 01:41:26 +0000
Subject: [PATCH 31/35] fix: an OSM export that runs out of memory fails
 instead of being incomplete

---
 .../modules/tiles/osm_export/osm_export.cc    | 56 ++++++++++++++-----
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/web/server/src/modules/tiles/osm_export/osm_export.cc b/web/server/src/modules/tiles/osm_export/osm_export.cc
index e59e9df..99a2816 100644
--- a/web/server/src/modules/tiles/osm_export/osm_export.cc
+++ b/web/server/src/modules/tiles/osm_export/osm_export.cc
@@ -1,7 +1,9 @@
 #include "soro/server/modules/tiles/osm_export/osm_export.h"
 
+#include <algorithm>
 #include <fstream>
 #include <future>
+#include <string_view>
 
 #include "utl/logging.h"
 #include "utl/overloaded.h"
@@ -17,20 +19,33 @@ using namespace soro::infra;
 
 namespace soro::server::osm_export::detail {
 
+// pugixml leaves out what it has no memory for
+void verify_complete(bool const complete) {
+  utl::verify(complete, "out of memory while creating the OSM document");
+}
+
+pugi::xml_node append_node(auto& parent_node, auto const& name) {
+  auto node = parent_node.append_child(name);
+  verify_complete(std::string_view{node.name()} == name);
+  return node;
+}
+
 void osm_add_key_value(auto const& key, auto const& value,
                        pugi::xml_node& node) {
-  node.append_attribute(key).set_value(value);
+  auto attribute = node.append_attribute(key);
+  verify_complete(std::string_view{attribute.name()} == key &&
+                  attribute.set_value(value));
 }
 
 void osm_add_tag(auto const& key, auto const& value, auto& parent_node) {
-  auto tag_node = parent_node.append_child(tag_str);
+  auto tag_node = append_node(parent_node, tag_str);
   osm_add_key_value(k_str, key, tag_node);  // NOLINT
   osm_add_key_value(v_str, value, tag_node);
 }
 
 void osm_add_node_with_key_value(auto const& key, auto const& value,
                                  auto const& node_name, auto& parent_node) {
-  auto node = parent_node.append_child(node_name);
+  auto node = append_node(parent_node, node_name);
   osm_add_key_value(key, value, node);
 }
 
@@ -42,8 +57,8 @@ void osm_add_coordinates(gps const& gps, auto& node) {
 void create_station_osm(pugi::xml_node& osm, station::ptr station,
                         std::size_t const osm_id,
                         soro::vector<gps> const& station_coords) {
-  auto station_node = osm.append_child(node_str);
-  station_node.append_attribute(id_str).set_value(osm_id);
+  auto station_node = append_node(osm, node_str);
+  osm_add_key_value(id_str, osm_id, station_node);
   osm_add_coordinates(station_coords[station->id_], station_node);
   osm_add_tag(type_str, station_str, station_node);
   osm_add_tag(id_str, station->id_, station_node);
@@ -52,8 +67,8 @@ void create_station_osm(pugi::xml_node& osm, station::ptr station,
 
 void create_element_osm(pugi::xml_node& osm, element_ptr e,
                         soro::vector<gps> const& element_coords) {
-  auto element_node = osm.append_child(node_str);
-  element_node.append_attribute(id_str).set_value(e->id());
+  auto element_node = append_node(osm, node_str);
+  osm_add_key_value(id_str, e->id(), element_node);
   osm_add_coordinates(element_coords[e->id()], element_node);
   osm_add_tag(type_str, element_str, element_node);
   osm_add_tag(subtype_str, e->get_type_str().c_str(), element_node);
@@ -64,8 +79,8 @@ void create_element_osm(pugi::xml_node& osm, element_ptr e,
 
 void create_way_osm(pugi::xml_node& osm_node, element_id const first,
                     element_id const second, size_t const id) {
-  auto way = osm_node.append_child(way_str);
-  way.append_attribute(id_str).set_value(id);
+  auto way = append_node(osm_node, way_str);
+  osm_add_key_value(id_str, id, way);
   osm_add_node_with_key_value(ref_str, first, nd_str, way);
   osm_add_node_with_key_value(ref_str, second, nd_str, way);
   osm_add_tag(railway_str, rail_str, way);
@@ -82,8 +97,8 @@ infra::element_id create_interpolation_osm(pugi::xml_node osm,
       osm_info.ways_.emplace_back(std::pair(id + i, id + i + 1));
     }
     ids.push_back(static_cast<soro::size_t>(id + i));
-    auto auxiliary_node = osm.append_child("node");
-    auxiliary_node.append_attribute("id").set_value(id + i);
+    auto auxiliary_node = append_node(osm, "node");
+    osm_add_key_value(id_str, id + i, auxiliary_node);
     auto auxiliary_coords = interpolation.points_.at(i);
     osm_add_coordinates(auxiliary_coords, auxiliary_node);
     osm_add_tag(type_str, interpolation_str, auxiliary_node);
@@ -147,20 +162,31 @@ pugi::xml_document export_osm_nodes(std::size_t const min,
 
 namespace soro::server::osm_export {
 
+bool is_copy(pugi::xml_node const& lhs, pugi::xml_node const& rhs) {
+  auto const same = [](auto&& a, auto&& b) {
+    return std::string_view{a.name()} == b.name() &&
+           std::string_view{a.value()} == b.value();
+  };
+
+  return same(lhs, rhs) &&
+         std::equal(lhs.attributes_begin(), lhs.attributes_end(),
+                    rhs.attributes_begin(), rhs.attributes_end(), same) &&
+         std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), is_copy);
+}
+
 void append_fragment(pugi::xml_node target,
                      pugi::xml_document const& cached_fragment) {
   for (pugi::xml_node child = cached_fragment.first_child(); child != nullptr;
        child = child.next_sibling()) {
-    target.append_copy(child);
+    detail::verify_complete(is_copy(child, target.append_copy(child)));
   }
 }
 
 pugi::xml_document export_to_osm(soro::infra::infrastructure_t const& iss) {
   uLOG(info) << "[ OSM Export ] Starting OSM export.";
   pugi::xml_document document;
-  pugi::xml_node osm_node = document.append_child("osm");
-  auto version = osm_node.append_attribute("version");
-  version.set_value("0.6");
+  pugi::xml_node osm_node = detail::append_node(document, "osm");
+  detail::osm_add_key_value("version", "0.6", osm_node);
 
   osm_information osm_info;
 
-- 
2.43.0


From 8f06d743c0564119281940fa983d91e6f6c43442 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 32/35] fix: infrastructures whose names differ after a dot no
 longer share OSM and tile files

---
 web/server/src/modules/tiles/tiles_module.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/web/server/src/modules/tiles/tiles_module.cc b/web/server/src/modules/tiles/tiles_module.cc
index 7872a4f..ece5b7a 100644
--- a/web/server/src/modules/tiles/tiles_module.cc
+++ b/web/server/src/modules/tiles/tiles_module.cc
@@ -54,8 +54,8 @@ fs::path create_osm_file(server_settings const& settings,
                          soro::infra::infrastructure const& infra) {
 
   auto osm_path =
-      (settings.osm_dir() / static_cast<std::string_view>(infra->source_))
-          .replace_extension(".osm");
+      settings.osm_dir() / static_cast<std::string_view>(infra->source_);
+  osm_path += ".osm";
 
   if (settings.regenerate_.val() || !fs::exists(osm_path)) {
     osm_export::export_and_write(*infra, osm_path);
@@ -68,8 +68,8 @@ fs::path create_tiles_db(server_settings const& s,
                          soro::infra::infrastructure const& infra,
                          fs::path const& osm_path) {
   auto tile_db_path =
-      (s.tiles_dir() / static_cast<std::string_view>(infra->source_))
-          .replace_extension(".mdb");
+      s.tiles_dir() / static_cast<std::string_view>(infra->source_);
+  tile_db_path += ".mdb";
 
   // marks databases whose import was not interrupted
   auto const complete_path = fs::path{tile_db_path}.replace_extension(".done");
-- 
2.43.0


From 459643895407f056ea3d0f9e93ec1f9f59e3a1bc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 33/35] fix: services that cannot be represented end the
 timetable import instead of corrupting memory

---
 include/soro/timetable/bitfield.h             |  4 +--
 src/timetable/bitfield.cc                     | 36 ++++++++++---------
 .../parsers/kss/parse_kss_timetable.cc        |  9 +++--
 3 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/soro/timetable/bitfield.h b/include/soro/timetable/bitfield.h
index 719bd58..8f62f53 100644
--- a/include/soro/timetable/bitfield.h
+++ b/include/soro/timetable/bitfield.h
@@ -60,8 +60,8 @@ struct bitfield {
 
   bool operator==(bitfield const& o) const noexcept = default;
 
-  bitfield operator|=(bitfield const& o) noexcept;
-  friend bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept;
+  bitfield operator|=(bitfield const& o);
+  friend bitfield operator|(bitfield const& lhs, bitfield const& rhs);
 
   soro::size_t count() const noexcept;
 
diff --git a/src/timetable/bitfield.cc b/src/timetable/bitfield.cc
index 377fe9f..f89f83b 100644
--- a/src/timetable/bitfield.cc
+++ b/src/timetable/bitfield.cc
@@ -176,7 +176,7 @@ void bitfield::set(bitfield::anchor_time const ymd, bool const new_value) {
     this->last_date_ = ymd;
   }  // else pos == 0, no changes to dates
 
-  utls::sassert(
+  utl::verify(
       distance(this->first_date_, this->last_date_) < BITSIZE,
       "Covering from start date {} to last date {} impossible with {} bits.",
       this->first_date_, this->last_date_, BITSIZE);
@@ -200,16 +200,16 @@ bool bitfield::equivalent(bitfield const& o) const noexcept {
   }
 }
 
-bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept {
+bitfield operator|(bitfield const& lhs, bitfield const& rhs) {
   auto copy = lhs;
   copy |= rhs;
   return copy;
 }
 
-bitfield bitfield::operator|=(bitfield const& o) noexcept {
-  utls::sassert(distance(std::min(this->first_date_, o.first_date_),
-                         std::max(this->last_date_, o.last_date_)) < BITSIZE,
-                "Covering more days than possible with only {} bits.", BITSIZE);
+bitfield bitfield::operator|=(bitfield const& o) {
+  utl::verify(distance(std::min(this->first_date_, o.first_date_),
+                       std::max(this->last_date_, o.last_date_)) < BITSIZE,
+              "Covering more days than possible with only {} bits.", BITSIZE);
 
   if (this->first_date_ < o.first_date_) {
     auto const c = o.bitset_ << distance(this->first_date_, o.first_date_);
@@ -252,19 +252,21 @@ absolute_time bitfield::last_set_date() const noexcept {
 bitfield make_bitfield(bitfield::anchor_time const first_date,
                        bitfield::anchor_time const last_date,
                        const char* const bitmask) {
+  utl::verify(first_date <= last_date, "Last date {} before first date {}.",
+              last_date, first_date);
+
   auto const bitmask_length = distance(first_date, last_date) + 1;
 
-  utls::sasserts([&]() {
-    utls::sassert(first_date <= last_date, "Last date {} before first date {}.",
-                  last_date, first_date);
-
-    auto const strlen_length = strlen(bitmask);
-    utls::sassert(strlen_length == distance(first_date, last_date) + 1,
-                  "Distance between first date {} and last date {} is {}, but "
-                  "bit_string has length of {}.",
-                  first_date, last_date, distance(first_date, last_date),
-                  strlen_length);
-  });
+  utl::verify(bitmask_length <= bitfield::BITSIZE,
+              "Covering from start date {} to last date {} impossible with {} "
+              "bits.",
+              first_date, last_date, bitfield::BITSIZE);
+
+  utl::verify(strlen(bitmask) == bitmask_length,
+              "Distance between first date {} and last date {} is {}, but "
+              "bit_string has length of {}.",
+              first_date, last_date, distance(first_date, last_date),
+              strlen(bitmask));
 
   std::array<char, bitfield::BITSIZE> buf{};
   std::fill(std::begin(buf), std::end(buf), '0');
diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index 35efa2a..d595c64 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -80,8 +80,8 @@ bitfield parse_services(xml_node const services_xml) {
   std::size_t total_service_days = 0;
 
   auto const parse_date = [](const char* const c) {
-    utls::sassert(strlen(c) == strlen("2022-11-19"),
-                  "Date {} has not the expected length.", c);
+    utl::verify(strlen(c) == strlen("2022-11-19"),
+                "Date {} has not the expected length.", c);
 
     date::year const y{parse_int<int>(c, c + 4)};
     date::month const m{parse_int<unsigned>(c + 5, c + 7)};
@@ -89,8 +89,7 @@ bitfield parse_services(xml_node const services_xml) {
 
     date::year_month_day date{y, m, d};
 
-    utls::sassert(date.ok(), "Date {} - {} - {} is not ok!", date.year(),
-                  date.month(), date.day());
+    utl::verify(date.ok(), "Date {} is not ok!", c);
 
     return date;
   };
@@ -141,7 +140,7 @@ bitfield parse_services(xml_node const services_xml) {
       accumulated_bitfield.ok() ? accumulated_bitfield |= bf
                                 : accumulated_bitfield = bf;
     } else {
-      utls::sassert(
+      utl::verify(
           accumulated_bitfield.ok(),
           "Trying to set special date, but base bitfield is not constructed");
       parse_special_service(accumulated_bitfield, service_xml);
-- 
2.43.0


From cf3bbfb2eb1b7de3c2aef4c3f9d91554790da31c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 34/35] fix: exclusion_set::set on an empty set

---
 src/infrastructure/exclusion/exclusion_set.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 08e1b6b..59da5dc 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -157,6 +157,11 @@ bool exclusion_set::operator[](exclusion_set::value_type const idx) const {
 }
 
 void exclusion_set::set(value_type const idx) {
+  if (this->empty()) {
+    *this = make_exclusion_set(id_, {idx});
+    return;
+  }
+
   if (idx < first_) {
     lower_first(this,
                 (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block);
-- 
2.43.0


From 600bc944a1431a98ef407c25956f892dba556f91 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 35/35] fix: two empty exclusion sets compare as equivalent

---
 src/infrastructure/exclusion/exclusion_set.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 59da5dc..17e0fc4 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -281,8 +281,9 @@ exclusion_set exclusion_set::operator|(exclusion_set const& other) const {
 }
 
 std::partial_ordering exclusion_set::compare(exclusion_set const& other) const {
-  if (this->empty() && !other.empty()) {
-    return std::partial_ordering::less;
+  if (this->empty()) {
+    return other.empty() ? std::partial_ordering::equivalent
+                         : std::partial_ordering::less;
   }
 
   if (other.empty()) {
-- 
2.43.0

