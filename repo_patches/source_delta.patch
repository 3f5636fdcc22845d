From b5217c47a287c5e4b22d8029b31af922cabf1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 01/52] fix: emit valid JSON traces for regions without
 executions or without SDFG metadata

---
 rtl/src/instrumentation.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8650db4..f6f3f3d 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -247,12 +247,14 @@ private:
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\",";
+            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
         } else {
-            entry << "\"opt_report_file\":\"\",";
+            entry << "\"opt_report_file\":\"\"";
         }
 
         if (md.sdfg_name && md.sdfg_file) {
+            entry << ",";
+
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
             entry << "\"element_type\":\"" << md.element_type << "\",";
@@ -541,6 +543,7 @@ public:
         std::fprintf(f, "{\"traceEvents\":[\n");
 
         // Output all events
+        bool first_event = true;
         for (auto iter = regions.begin(); iter != regions.end(); ++iter) {
             auto& region = iter->second;
 
@@ -552,11 +555,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event_aggregated(f, region, event_names);
-
-                if (std::next(iter) != regions.end()) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
+                first_event = false;
+                append_event_aggregated(f, region, event_names);
                 continue;
             }
 
@@ -568,13 +571,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event(f, region, event_index, event_names);
-                if (event_index < region.starts.size() - 1) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
-            }
-            if (std::next(iter) != regions.end()) {
-                std::fprintf(f, ",\n");
+                first_event = false;
+                append_event(f, region, event_index, event_names);
             }
         }
 
-- 
2.43.0


From 26a51d2d6e56e99d8f071e9df3651abc9909d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 02/52] fix: escape strings in instrumentation traces

---
 rtl/src/instrumentation.cpp | 69 +++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index f6f3f3d..6aa8309 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -138,6 +138,25 @@ static std::ostream& operator<<(std::ostream& os, JsSafeDouble val) {
     return os;
 }
 
+// Strings of the metadata may contain arbitrary characters, e.g., paths with quotes or backslashes
+static std::string js_escape(const std::string& str) {
+    std::string out;
+    out.reserve(str.size());
+    for (char c : str) {
+        if (c == '"' || c == '\\') {
+            out += '\\';
+            out += c;
+        } else if (static_cast<unsigned char>(c) < 0x20) {
+            char buf[8];
+            std::snprintf(buf, sizeof(buf), "\\u%04x", static_cast<unsigned int>(c));
+            out += buf;
+        } else {
+            out += c;
+        }
+    }
+    return out;
+}
+
 class DaisyInstrumentationState {
 private:
     size_t next_region_id = 1;
@@ -203,7 +222,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << js_escape(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         if (region.starts.size() > index) {
@@ -215,10 +234,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << js_escape(md.function_name) << "\",";
+        entry << "\"module\":\"" << js_escape(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << js_escape(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -227,27 +246,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << js_escape(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << js_escape(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << js_escape(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << js_escape(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << js_escape(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -257,7 +276,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << js_escape(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -279,7 +298,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << js_escape(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -289,7 +308,7 @@ private:
         if (index < region.counts.size()) {
             auto& counts = region.counts.at(index);
             for (size_t i = 0; i < counts.size(); ++i) {
-                entry << "\"" << event_names[i] << "\":" << counts[i];
+                entry << "\"" << js_escape(event_names[i]) << "\":" << counts[i];
                 if (i < counts.size() - 1) {
                     entry << ",";
                 }
@@ -335,7 +354,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"aggregated_region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << js_escape(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         // First start
@@ -345,10 +364,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << js_escape(md.function_name) << "\",";
+        entry << "\"module\":\"" << js_escape(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << js_escape(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -358,27 +377,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << js_escape(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << js_escape(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << js_escape(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << js_escape(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << js_escape(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -388,7 +407,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << js_escape(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -410,7 +429,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << js_escape(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -418,7 +437,7 @@ private:
         entry << "\"metrics\":{";
         // PAPI counters
         for (size_t i = 0; i < event_names.size(); ++i) {
-            entry << "\"" << event_names[i] << "\":{";
+            entry << "\"" << js_escape(event_names[i]) << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
             entry << "\"count\":" << region.n[i] << ",";
@@ -429,7 +448,7 @@ private:
         }
         // Static counters
         for (auto& [name, mean] : region.static_counters_mean) {
-            entry << "\"static:::" << name << "\":{";
+            entry << "\"static:::" << js_escape(name) << "\":{";
             entry << "\"mean\":" << JsSafeDouble(mean) << ", ";
             entry << "\"variance\":" << JsSafeDouble(region.static_counters_variance[name]) << ", ";
             entry << "\"count\":" << region.static_counters_n[name] << ", ";
-- 
2.43.0


From 0a608da92a20b7dc5ecbc96d8478c34658e11f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 03/52] fix: aggregated trace of a region that was never
 executed reads past empty counters

---
 rtl/src/instrumentation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 6aa8309..98fcbe8 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -106,8 +106,8 @@ struct DaisyRegion {
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
-    long long runtime_min;
-    long long runtime_max;
+    long long runtime_min = 0;
+    long long runtime_max = 0;
 
     // Counters
     std::vector<long long> n;
@@ -435,8 +435,8 @@ private:
         }
 
         entry << "\"metrics\":{";
-        // PAPI counters
-        for (size_t i = 0; i < event_names.size(); ++i) {
+        // PAPI counters (none, if the region was never executed)
+        for (size_t i = 0; i < region.mean.size(); ++i) {
             entry << "\"" << js_escape(event_names[i]) << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
-- 
2.43.0


From 7ae155a4744068687801f4ce3c0bd0eea4249406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 04/52] fix: report failure to write the instrumentation trace

---
 rtl/src/instrumentation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 98fcbe8..3fe8a67 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -602,7 +602,11 @@ public:
         std::fprintf(f, "\n]}\n");
 
         // Close output file
-        std::fclose(f);
+        bool failed = std::ferror(f) != 0;
+        if (std::fclose(f) != 0 || failed) {
+            std::perror("[daisy-rtl] Failed to write output file");
+            exit(EXIT_FAILURE);
+        }
     }
 
     size_t register_region(const __daisy_metadata* metadata, enum __daisy_event_set event_set) {
-- 
2.43.0


From 68d6bd6e166d5a235fa730e2d758b1a611926eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 05/52] fix: scale variance of aggregated runtime to squared
 microseconds

---
 rtl/src/instrumentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 3fe8a67..5f98963 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -461,7 +461,7 @@ private:
         // Runtime stats
         entry << "\"runtime\":{";
         entry << "\"mean\":" << ns_to_us(region.runtime_mean) << ",";
-        entry << "\"variance\":" << ns_to_us(region.runtime_variance) << ",";
+        entry << "\"variance\":" << ns_to_us(ns_to_us(region.runtime_variance)) << ",";
         entry << "\"count\":" << region.runtime_n << ",";
         entry << "\"min\":" << ns_to_us(region.runtime_min) << ",";
         entry << "\"max\":" << ns_to_us(region.runtime_max);
-- 
2.43.0


From c44809b60a9ac8e110fa0e331b42b39431f52e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 06/52] fix: initializing an instrumentation region that is
 already in use aborts the program

---
 rtl/src/instrumentation.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 5f98963..200e47b 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -86,6 +86,9 @@ struct DaisyRegion {
     enum __daisy_event_set event_set;
     int papi_eventset = -1;
 
+    // Number of initializations that have not been finalized yet
+    size_t users = 0;
+
     // Temporary buffers
     std::vector<long long> last_counts;
 
@@ -622,6 +625,7 @@ public:
 
             // start region
             auto& region = this->regions[region_id];
+            region.users = 1;
             _PAPI_start(region.papi_eventset);
 
             return region_id;
@@ -631,6 +635,12 @@ public:
             size_t region_id = this->region_name_to_id[metadata->region_uuid];
             auto& region = this->regions[region_id];
 
+            // Already in use by another thread or by an enclosing execution of the same region
+            if (region.users > 0) {
+                region.users++;
+                return region_id;
+            }
+
             if (_PAPI_create_eventset(&region.papi_eventset) != 0) {
                 std::fprintf(stderr, "[daisy-rtl] Failed to create PAPI eventset.\n");
                 exit(EXIT_FAILURE);
@@ -652,6 +662,7 @@ public:
             }
 
             // start region
+            region.users = 1;
             _PAPI_start(region.papi_eventset);
 
             return region_id;
@@ -660,6 +671,7 @@ public:
         DaisyRegion region;
         std::memcpy(&region.metadata, metadata, sizeof(__daisy_metadata));
         region.event_set = event_set;
+        region.users = 1;
 
         if (_PAPI_create_eventset(&region.papi_eventset) != 0) {
             std::fprintf(stderr, "[daisy-rtl] Failed to create PAPI eventset.\n");
@@ -908,6 +920,11 @@ public:
 
         DaisyRegion& region = it->second;
 
+        // Still in use by another thread or by an enclosing execution of the same region
+        if (region.users > 0 && --region.users > 0) {
+            return;
+        }
+
         // Stop counters
         if (region.event_set == __DAISY_EVENT_SET_CPU && this->event_names_cpu.size() > 0) {
             std::vector<long long> counts(this->event_names_cpu.size(), 0);
-- 
2.43.0


From 8fdd685dddf7506cfceb41ac26822e437c19a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 07/52] fix: overlapping executions of an instrumentation
 region are attributed wrongly

---
 rtl/src/instrumentation.cpp | 60 ++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 200e47b..0126460 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <cstdio>
 #include <cstdlib>
@@ -89,8 +90,15 @@ struct DaisyRegion {
     // Number of initializations that have not been finalized yet
     size_t users = 0;
 
-    // Temporary buffers
-    std::vector<long long> last_counts;
+    // Executions that have been entered but not exited yet.
+    // Executions by different threads (or recursive executions) may overlap
+    struct OpenExecution {
+        uint64_t tid;
+        long long start = 0;
+        size_t index = 0;
+        std::vector<long long> counts;
+    };
+    std::vector<OpenExecution> open_executions;
 
     // Full results
 
@@ -105,7 +113,6 @@ struct DaisyRegion {
 
     // Runtime
     long long first_start = 0;
-    long long last_start;
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
@@ -231,7 +238,7 @@ private:
         if (region.starts.size() > index) {
             entry << "\"ts\":" << (region.starts.at(index) / 1000) << ",";
         }
-        if (region.durations.size() > index) {
+        if (region.durations.size() > index && region.durations.at(index) >= 0) {
             entry << "\"dur\":" << ns_to_us(region.durations.at(index)) << ",";
         }
         entry << "\"args\":{";
@@ -712,15 +719,18 @@ public:
 
         DaisyRegion& region = it->second;
 
+        DaisyRegion::OpenExecution execution;
+        execution.tid = gettid();
+
         // Save start counters (before timing)
         if (region.event_set == __DAISY_EVENT_SET_CPU && this->event_names_cpu.size() > 0) {
             std::vector<long long> counts(this->event_names_cpu.size(), 0);
             _PAPI_read(region.papi_eventset, counts.data());
-            region.last_counts = counts;
+            execution.counts = counts;
         } else if (region.event_set == __DAISY_EVENT_SET_CUDA && this->event_names_cuda.size() > 0) {
             std::vector<long long> counts(this->event_names_cuda.size(), 0);
             _PAPI_read(region.papi_eventset, counts.data());
-            region.last_counts = counts;
+            execution.counts = counts;
         }
 
         // Save start time
@@ -729,10 +739,14 @@ public:
             if (region.first_start == 0) {
                 region.first_start = start_ns;
             }
-            region.last_start = start_ns;
         } else {
+            execution.index = region.starts.size();
             region.starts.push_back(start_ns);
+            region.durations.push_back(-1);
+            region.counts.emplace_back();
         }
+        execution.start = start_ns;
+        region.open_executions.push_back(std::move(execution));
     }
 
     void exit_region(size_t region_id) {
@@ -748,8 +762,27 @@ public:
 
         // Save duration (before counters)
         long long end_ns = _PAPI_get_real_nsec();
+
+        // Find the innermost execution of this thread
+        uint64_t tid = gettid();
+        auto open = std::find_if(
+            region.open_executions.rbegin(),
+            region.open_executions.rend(),
+            [tid](const DaisyRegion::OpenExecution& execution) { return execution.tid == tid; }
+        );
+        if (open == region.open_executions.rend()) {
+            // Entered by another thread
+            open = region.open_executions.rbegin();
+        }
+        if (open == region.open_executions.rend()) {
+            std::fprintf(stderr, "[daisy-rtl] Warning: exiting region %zu that was not entered\n", region_id);
+            exit(EXIT_FAILURE);
+        }
+        DaisyRegion::OpenExecution execution = std::move(*open);
+        region.open_executions.erase(std::next(open).base());
+
+        long long duration_ns = end_ns - execution.start;
         if (this->aggregate_events) {
-            long long duration_ns = end_ns - region.last_start;
 
             // Update aggregated runtime stats
             if (region.runtime_n == 0) {
@@ -768,8 +801,7 @@ public:
                 if (duration_ns > region.runtime_max) region.runtime_max = duration_ns;
             }
         } else {
-            long long duration_ns = end_ns - region.starts.back();
-            region.durations.push_back(duration_ns);
+            region.durations[execution.index] = duration_ns;
         }
 
         // Save end counters
@@ -778,11 +810,11 @@ public:
             _PAPI_read(region.papi_eventset, counts.data());
 
             for (size_t i = 0; i < counts.size(); ++i) {
-                counts[i] -= region.last_counts[i];
+                counts[i] -= execution.counts[i];
             }
 
             if (!this->aggregate_events) {
-                region.counts.push_back(counts);
+                region.counts[execution.index] = counts;
                 return;
             }
 
@@ -820,11 +852,11 @@ public:
             _PAPI_read(region.papi_eventset, counts.data());
 
             for (size_t i = 0; i < counts.size(); ++i) {
-                counts[i] -= region.last_counts[i];
+                counts[i] -= execution.counts[i];
             }
 
             if (!this->aggregate_events) {
-                region.counts.push_back(counts);
+                region.counts[execution.index] = counts;
                 return;
             }
 
-- 
2.43.0


From 13f3f026c357ad811f6ef74924f2a7457e103602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 08/52] fix: report failure to write the capture index

---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index cb4a9ca..30738e9 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -285,6 +285,9 @@ void ArgCaptureIO::write_index(std::filesystem::path base_path) {
         ofs << j;
 
         ofs.close();
+        if (ofs.fail()) {
+            throw std::runtime_error("Failed to write index file: " + file.string());
+        }
 
         DEBUG_PRINTLN("Wrote capture index to " << file.string());
     }
-- 
2.43.0


From 28f317cb4f9301024d1961dd5ec28a62187f7c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 09/52] fix: reading a captured data file that is too short
 returns garbage

---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index 30738e9..06e2457 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -249,6 +249,9 @@ void ArgCaptureIO::read_data_from_raw_file(const std::filesystem::path& file, vo
     }
 
     ifs.read(reinterpret_cast<char*>(write_ptr), size);
+    if (!ifs || static_cast<size_t>(ifs.gcount()) != size) {
+        throw std::runtime_error("Failed to read " + std::to_string(size) + " bytes from file: " + file.string());
+    }
     ifs.close();
 }
 
-- 
2.43.0


From b4405eb8f7e3f8ab4dc1458df75349331499f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 10/52] fix: an incomplete capture index is rejected with an
 exception

---
 arg-capture-io/include/daisy_rtl/arg_capture_io.h | 10 +++++-----
 arg-capture-io/src/arg_capture_io.cpp             |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/arg-capture-io/include/daisy_rtl/arg_capture_io.h b/arg-capture-io/include/daisy_rtl/arg_capture_io.h
index 4f5e263..a023e9e 100644
--- a/arg-capture-io/include/daisy_rtl/arg_capture_io.h
+++ b/arg-capture-io/include/daisy_rtl/arg_capture_io.h
@@ -121,19 +121,19 @@ std::shared_ptr<T> ArgCaptureIO::from_index(const std::filesystem::path& file) {
     nlohmann::json j;
     ifs >> j;
 
-    if (j["format"].get<uint32_t>() != INDEX_FORMAT_VERSION) {
+    if (j.at("format").get<uint32_t>() != INDEX_FORMAT_VERSION) {
         throw std::runtime_error("Unsupported index format version");
     }
 
-    auto name = j["target"].get<std::string>();
-    auto invokes = j["invocation"].get<uint32_t>();
-    auto element_id = j["element_id"].get<std::string>();
+    auto name = j.at("target").get<std::string>();
+    auto invokes = j.at("invocation").get<uint32_t>();
+    auto element_id = j.at("element_id").get<std::string>();
 
     auto captureIO = std::make_shared<T>(name.c_str());
     captureIO->invokes_[element_id] = invokes;
 
     auto& capture_map = captureIO->current_captures_[element_id];
-    for (const auto& entry : j["captures"]) {
+    for (const auto& entry : j.at("captures")) {
         ArgCapture::parse_from(entry, capture_map, file.parent_path());
     }
 
diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index 06e2457..6a344c2 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -61,10 +61,10 @@ void ArgCapture::parse_from(
     std::filesystem::path base_path
 ) {
     ArgCapture capture(
-        entry["arg_idx"].get<int>(),
-        entry["after"].get<bool>(),
-        entry["primitive_type"].get<int>(),
-        entry["dims"].get<std::vector<size_t>>()
+        entry.at("arg_idx").get<int>(),
+        entry.at("after").get<bool>(),
+        entry.at("primitive_type").get<int>(),
+        entry.at("dims").get<std::vector<size_t>>()
     );
 
     if (entry.contains("data")) {
-- 
2.43.0


From e442258c49330042cc4b18ffa82c6688a39ace06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 11/52] fix: index of an earlier run survives while its capture
 data is overwritten

---
 arg-capture-io/include/daisy_rtl/arg_capture_io.h | 2 ++
 arg-capture-io/src/arg_capture_io.cpp             | 8 ++++++--
 rtl/src/capture.cpp                               | 8 +++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/arg-capture-io/include/daisy_rtl/arg_capture_io.h b/arg-capture-io/include/daisy_rtl/arg_capture_io.h
index a023e9e..3ea1412 100644
--- a/arg-capture-io/include/daisy_rtl/arg_capture_io.h
+++ b/arg-capture-io/include/daisy_rtl/arg_capture_io.h
@@ -93,6 +93,8 @@ public:
 
     void write_index(std::filesystem::path base_file);
 
+    std::filesystem::path index_file(const std::filesystem::path& base_path, const std::string& element_id) const;
+
     const std::unordered_map<std::string, std::unordered_map<std::pair<int32_t, bool>, ArgCapture, MyHash>>& get_captures()
         const;
 
diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index 6a344c2..8eb4494 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -255,12 +255,16 @@ void ArgCaptureIO::read_data_from_raw_file(const std::filesystem::path& file, vo
     ifs.close();
 }
 
+std::filesystem::path ArgCaptureIO::index_file(const std::filesystem::path& base_path, const std::string& element_id)
+    const {
+    return base_path / (name_ + "_inv" + std::to_string(invokes_.at(element_id)) + "_" + element_id + ".index.json");
+}
+
 void ArgCaptureIO::write_index(std::filesystem::path base_path) {
     std::filesystem::create_directories(base_path);
 
     for (const auto& [region_id, captures] : current_captures_) {
-        auto file = base_path /
-                    (name_ + "_inv" + std::to_string(invokes_.at(region_id)) + "_" + region_id + ".index.json");
+        auto file = index_file(base_path, region_id);
 
         std::filesystem::create_directories(file.parent_path());
 
diff --git a/rtl/src/capture.cpp b/rtl/src/capture.cpp
index d199524..790a26d 100644
--- a/rtl/src/capture.cpp
+++ b/rtl/src/capture.cpp
@@ -74,7 +74,13 @@ bool DaisyRtlCapture::enter(std::string element_id) {
     invocation(element_id);
 
     auto specific_invocation_only = this->invocation_to_capture_;
-    return (specific_invocation_only == ALL_INVOCATIONS) || (invokes_.at(element_id) == specific_invocation_only);
+    if (specific_invocation_only != ALL_INVOCATIONS && invokes_.at(element_id) != specific_invocation_only) {
+        return false;
+    }
+
+    // The data files of an earlier run are about to be overwritten, its index must not outlive them
+    std::filesystem::remove(index_file(output_dir_, element_id));
+    return true;
 }
 
 void DaisyRtlCapture::
-- 
2.43.0


From e5c79b945da3ae83ac584788460b5a5d33ebda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 12/52] fix: HTTP payload is cut off at its first NUL character

---
 rpc/src/util/utils_curl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpc/src/util/utils_curl.cpp b/rpc/src/util/utils_curl.cpp
index 71aee5e..94b463b 100644
--- a/rpc/src/util/utils_curl.cpp
+++ b/rpc/src/util/utils_curl.cpp
@@ -17,6 +17,8 @@ HttpResult post_json(CURL* curl, const std::string& url, const std::string& payl
     curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response_data);
 
     curl_easy_setopt(curl, CURLOPT_URL, url.c_str());
+    // The payload is not necessarily a C string
+    curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE_LARGE, static_cast<curl_off_t>(payload.size()));
     curl_easy_setopt(curl, CURLOPT_POSTFIELDS, payload.c_str());
 
     if (headers) curl_easy_setopt(curl, CURLOPT_HTTPHEADER, headers);
-- 
2.43.0


From 1eff7350397fc8fa4f655024f79adf571a291830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 13/52] fix: HTTP status is undefined when the request fails
 without an answer

---
 rpc/include/sdfg/util/utils_curl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpc/include/sdfg/util/utils_curl.h b/rpc/include/sdfg/util/utils_curl.h
index 8efcc53..74896f3 100644
--- a/rpc/include/sdfg/util/utils_curl.h
+++ b/rpc/include/sdfg/util/utils_curl.h
@@ -4,8 +4,8 @@
 #include <string>
 
 struct HttpResult {
-    CURLcode curl_code;
-    long http_status;
+    CURLcode curl_code = CURLE_OK;
+    long http_status = 0;
     std::string body;
     std::string error_message;
 };
-- 
2.43.0


From 06c05163c20d94bc02ee516d32d6c90ae4a79faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 14/52] fix: a query to a server that stops responding never
 ends

---
 rpc/src/util/utils_curl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpc/src/util/utils_curl.cpp b/rpc/src/util/utils_curl.cpp
index 94b463b..b46fd50 100644
--- a/rpc/src/util/utils_curl.cpp
+++ b/rpc/src/util/utils_curl.cpp
@@ -21,6 +21,10 @@ HttpResult post_json(CURL* curl, const std::string& url, const std::string& payl
     curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE_LARGE, static_cast<curl_off_t>(payload.size()));
     curl_easy_setopt(curl, CURLOPT_POSTFIELDS, payload.c_str());
 
+    // A server or network that stops responding must not block forever
+    curl_easy_setopt(curl, CURLOPT_LOW_SPEED_LIMIT, 1L);
+    curl_easy_setopt(curl, CURLOPT_LOW_SPEED_TIME, 900L);
+
     if (headers) curl_easy_setopt(curl, CURLOPT_HTTPHEADER, headers);
 
     result.curl_code = curl_easy_perform(curl);
-- 
2.43.0


From c2fd5aec8b46936e219c3e5e473b3cb937d2f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 15/52] fix: a token file that cannot be read to its end yields
 a truncated credential

---
 rpc/src/passes/rpc/daisytuner_rpc_context.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rpc/src/passes/rpc/daisytuner_rpc_context.cpp b/rpc/src/passes/rpc/daisytuner_rpc_context.cpp
index 102db5b..355fdf8 100644
--- a/rpc/src/passes/rpc/daisytuner_rpc_context.cpp
+++ b/rpc/src/passes/rpc/daisytuner_rpc_context.cpp
@@ -3,9 +3,9 @@
 #include <cstdlib>
 #include <filesystem>
 #include <fstream>
+#include <iterator>
 #include <memory>
 #include <optional>
-#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -48,9 +48,8 @@ std::optional<std::pair<std::string, bool>> DaisytunerRpcContext::find_docc_auth
         std::filesystem::path config_dir = std::filesystem::path(home) / ".config" / "docc";
         std::ifstream infile((config_dir / "token").string());
         if (infile) {
-            std::ostringstream ss;
-            ss << infile.rdbuf();
-            std::string token = ss.str();
+            // throws if the file cannot be read to its end, as a part of a token is no token
+            std::string token{std::istreambuf_iterator<char>(infile), std::istreambuf_iterator<char>()};
             token.erase(token.find_last_not_of(" \n\r\t") + 1);
             return std::make_pair(token, false);
         }
@@ -59,9 +58,8 @@ std::optional<std::pair<std::string, bool>> DaisytunerRpcContext::find_docc_auth
     // Check /var/lib/daisytuner/session
     std::ifstream session_file("/var/lib/daisytuner/session");
     if (session_file) {
-        std::ostringstream ss;
-        ss << session_file.rdbuf();
-        std::string token = ss.str();
+        // throws if the file cannot be read to its end, as a part of a token is no token
+        std::string token{std::istreambuf_iterator<char>(session_file), std::istreambuf_iterator<char>()};
         token.erase(token.find_last_not_of(" \n\r\t") + 1);
         return std::make_pair(token, false);
     }
-- 
2.43.0


From 378f38fd9afa9b00e4700d335ff116c08097cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 16/52] fix: a function compiled for one array layout is run
 for arrays of another

One cached library was used for C- and F-ordered, strided and size-1 arguments alike,
although strides and size-1 dimensions are compiled in: wrong results and accesses
outside the arrays.
---
 python/docc/python/python_program.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index a18a5ef..18f224b 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -242,7 +242,9 @@ class PythonProgram(DoccProgram):
         mapping_sig = sorted(arg_shape_mapping.items())
         equiv_sig = sorted(shape_to_scalar.items())
         type_sig = ", ".join(self._type_to_str(t) for t in arg_types)
-        signature = f"{type_sig}|{mapping_sig}|{equiv_sig}"
+        # The layout of arrays is compiled in as well
+        layout_sig = [self._layout_to_str(arg) for arg in args]
+        signature = f"{type_sig}|{mapping_sig}|{equiv_sig}|{layout_sig}"
 
         if output_folder is None:
             filename = inspect.getsourcefile(self.func)
@@ -398,6 +400,17 @@ class PythonProgram(DoccProgram):
             return f"Structure({t.name})"
         return str(t)
 
+    def _layout_to_str(self, arg):
+        if isinstance(arg, np.ndarray):
+            # Size-1 dimensions are compiled as literals
+            ones = [dim_idx for dim_idx, dim_val in enumerate(arg.shape) if dim_val == 1]
+            if arg.flags["C_CONTIGUOUS"]:
+                return f"C{ones}"
+            elif arg.flags["F_CONTIGUOUS"]:
+                return f"F{ones}"
+            return f"{arg.strides}{ones}"
+        return ""
+
     def _infer_type(self, arg):
         if isinstance(arg, (float, np.float64)):
             return Scalar(PrimitiveType.Double)
-- 
2.43.0


From 21aa737165e2cb7989bb7cd442c150b21728532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 17/52] fix: a function compiled for one structure layout is
 run for another

Instances of one class with members of other types or names were passed to the library
compiled for the first instance.
---
 python/docc/python/python_program.py | 68 ++++++++++++++++------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index 18f224b..c606f5e 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -242,7 +242,7 @@ class PythonProgram(DoccProgram):
         mapping_sig = sorted(arg_shape_mapping.items())
         equiv_sig = sorted(shape_to_scalar.items())
         type_sig = ", ".join(self._type_to_str(t) for t in arg_types)
-        # The layout of arrays is compiled in as well
+        # The layout of arrays and the members of structures are compiled in as well
         layout_sig = [self._layout_to_str(arg) for arg in args]
         signature = f"{type_sig}|{mapping_sig}|{equiv_sig}|{layout_sig}"
 
@@ -409,8 +409,42 @@ class PythonProgram(DoccProgram):
             elif arg.flags["F_CONTIGUOUS"]:
                 return f"F{ones}"
             return f"{arg.strides}{ones}"
+        elif hasattr(arg, "__dict__"):
+            members = self._structure_members(arg)
+            return str([(name, self._type_to_str(t)) for name, t in members])
         return ""
 
+    def _structure_members(self, arg):
+        """Names and types of the members of a class instance, in layout order."""
+        # Use __dict__ to get only instance attributes
+        # Sort by name to ensure consistent ordering
+        # Note: This alphabetical ordering is used to define the
+        # structure layout and must match the order expected by
+        # the backend code generation
+        members = []
+        for attr_name, attr_value in sorted(arg.__dict__.items()):
+            if not attr_name.startswith("_"):
+                # Infer member type from instance attribute
+                # Check bool before int since bool is subclass of int
+                member_type = None
+                if isinstance(attr_value, bool):
+                    member_type = Scalar(PrimitiveType.Bool)
+                elif isinstance(attr_value, (int, np.int64)):
+                    member_type = Scalar(PrimitiveType.Int64)
+                elif isinstance(attr_value, (float, np.float64)):
+                    member_type = Scalar(PrimitiveType.Double)
+                elif isinstance(attr_value, np.int32):
+                    member_type = Scalar(PrimitiveType.Int32)
+                elif isinstance(attr_value, np.float32):
+                    member_type = Scalar(PrimitiveType.Float)
+                # TODO: Consider using np.integer and np.floating abstract types
+                # for more comprehensive numpy type coverage
+                # TODO: Add support for nested structures and arrays
+
+                if member_type is not None:
+                    members.append((attr_name, member_type))
+        return members
+
     def _infer_type(self, arg):
         if isinstance(arg, (float, np.float64)):
             return Scalar(PrimitiveType.Double)
@@ -548,35 +582,9 @@ class PythonProgram(DoccProgram):
                     if struct_name not in structures_to_register:
                         # Get class from arg to introspect members
                         if hasattr(arg, "__dict__"):
-                            # Use __dict__ to get only instance attributes
-                            # Sort by name to ensure consistent ordering
-                            # Note: This alphabetical ordering is used to define the
-                            # structure layout and must match the order expected by
-                            # the backend code generation
-                            member_types = []
-                            member_names = []
-                            for attr_name, attr_value in sorted(arg.__dict__.items()):
-                                if not attr_name.startswith("_"):
-                                    # Infer member type from instance attribute
-                                    # Check bool before int since bool is subclass of int
-                                    member_type = None
-                                    if isinstance(attr_value, bool):
-                                        member_type = Scalar(PrimitiveType.Bool)
-                                    elif isinstance(attr_value, (int, np.int64)):
-                                        member_type = Scalar(PrimitiveType.Int64)
-                                    elif isinstance(attr_value, (float, np.float64)):
-                                        member_type = Scalar(PrimitiveType.Double)
-                                    elif isinstance(attr_value, np.int32):
-                                        member_type = Scalar(PrimitiveType.Int32)
-                                    elif isinstance(attr_value, np.float32):
-                                        member_type = Scalar(PrimitiveType.Float)
-                                    # TODO: Consider using np.integer and np.floating abstract types
-                                    # for more comprehensive numpy type coverage
-                                    # TODO: Add support for nested structures and arrays
-
-                                    if member_type is not None:
-                                        member_types.append(member_type)
-                                        member_names.append(attr_name)
+                            members = self._structure_members(arg)
+                            member_names = [name for name, _ in members]
+                            member_types = [mtype for _, mtype in members]
 
                             if member_types:
                                 structures_to_register[struct_name] = member_types
-- 
2.43.0


From 717fa7955128899335c5c6a9ea2305390f3ac4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 18/52] fix: compiled code is reused although other
 instrumentation or capture was asked for

The cache and the output folder were looked up by the options of the decorator, not by
those in effect for the compilation. A cached Torch model compiled again did not become
the one that is run.
---
 mlir/docc/torch/__init__.py          | 4 +++-
 python/docc/python/python_program.py | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mlir/docc/torch/__init__.py b/mlir/docc/torch/__init__.py
index d371c9a..2670fa9 100644
--- a/mlir/docc/torch/__init__.py
+++ b/mlir/docc/torch/__init__.py
@@ -101,9 +101,11 @@ class TorchProgram(DoccProgram):
 
         # Generate cache key
         cache_key = self._get_cache_key(self.example_input)
+        cache_key = f"{cache_key}|{instrumentation_mode}|{capture_args}"
 
         if original_output_folder is None and cache_key in self.cache:
-            return self.cache[cache_key]
+            self._compiled = self.cache[cache_key]
+            return self._compiled
 
         # Determine output folder
         if output_folder is None:
diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index c606f5e..85c2d66 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -244,11 +244,11 @@ class PythonProgram(DoccProgram):
         type_sig = ", ".join(self._type_to_str(t) for t in arg_types)
         # The layout of arrays and the members of structures are compiled in as well
         layout_sig = [self._layout_to_str(arg) for arg in args]
-        signature = f"{type_sig}|{mapping_sig}|{equiv_sig}|{layout_sig}"
+        signature = f"{type_sig}|{mapping_sig}|{equiv_sig}|{layout_sig}|{instrumentation_mode}|{capture_args}"
 
         if output_folder is None:
             filename = inspect.getsourcefile(self.func)
-            hash_input = f"{filename}|{self.name}|{self.target}|{self.category}|{self.capture_args}|{self.instrumentation_mode}|{self.remote_tuning}|{signature}".encode(
+            hash_input = f"{filename}|{self.name}|{self.target}|{self.category}|{self.remote_tuning}|{signature}".encode(
                 "utf-8"
             )
             stable_id = hashlib.sha256(hash_input).hexdigest()[:16]
-- 
2.43.0


From cf67fbedbace3f5863f2b4cc38d4a0972305578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 19/52] fix: the library of an earlier compilation stays loaded
 after a rebuild

dlopen() returns the library it has loaded from a path before, so functions compiled
to the same folder ran the old code.
---
 python/docc/compiler/compiled_sdfg.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/python/docc/compiler/compiled_sdfg.py b/python/docc/compiler/compiled_sdfg.py
index a03435c..20316cb 100644
--- a/python/docc/compiler/compiled_sdfg.py
+++ b/python/docc/compiler/compiled_sdfg.py
@@ -1,4 +1,7 @@
 import ctypes
+import itertools
+import os
+import shutil
 from docc.sdfg import Scalar, Array, Pointer, Structure, PrimitiveType
 
 import numpy as np
@@ -31,6 +34,23 @@ _CTYPES_MAP = {
 }
 
 
+_loaded_paths = set()
+_load_counter = itertools.count()
+
+
+def _load_library(lib_path):
+    # dlopen() returns the library it has loaded from this path before, even if
+    # the file was rebuilt since. Load rebuilt libraries under a name of their own.
+    load_path = os.path.realpath(lib_path)
+    if load_path in _loaded_paths:
+        alias = f"{load_path}.{os.getpid()}.{next(_load_counter)}"
+        shutil.copyfile(load_path, alias)
+        load_path = alias
+    lib = ctypes.CDLL(load_path)
+    _loaded_paths.add(load_path)
+    return lib
+
+
 class CompiledSDFG:
     def __init__(
         self,
@@ -46,7 +66,7 @@ class CompiledSDFG:
         self.sdfg = sdfg
         self.shape_sources = shape_sources or []
         self.structure_member_info = structure_member_info or {}
-        self.lib = ctypes.CDLL(lib_path)
+        self.lib = _load_library(lib_path)
         self.func = getattr(self.lib, sdfg.name)
 
         # Check for output args
-- 
2.43.0


From 4279cb9930c5e4a794a06ee933dcc4e801ab49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 20/52] fix: Torch models read non-contiguous numpy inputs as
 if contiguous

---
 mlir/docc/torch/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlir/docc/torch/__init__.py b/mlir/docc/torch/__init__.py
index 2670fa9..0fb423d 100644
--- a/mlir/docc/torch/__init__.py
+++ b/mlir/docc/torch/__init__.py
@@ -261,7 +261,7 @@ class TorchProgram(DoccProgram):
                 arr = arg.detach().cpu().contiguous().numpy()
                 converted.append(arr)
             elif isinstance(arg, np.ndarray):
-                converted.append(arg)
+                converted.append(np.ascontiguousarray(arg))
             else:
                 converted.append(arg)
 
-- 
2.43.0


From 100851f0649443450cda15abec19ac3564b754a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 21/52] fix: half-precision scalar results are returned as
 their bit pattern

---
 python/docc/compiler/compiled_sdfg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/docc/compiler/compiled_sdfg.py b/python/docc/compiler/compiled_sdfg.py
index 20316cb..87cb60e 100644
--- a/python/docc/compiler/compiled_sdfg.py
+++ b/python/docc/compiler/compiled_sdfg.py
@@ -477,7 +477,13 @@ class CompiledSDFG:
             if size == 1 and dims is None:
                 # Scalar
                 # buf is c_double / c_int instance
-                results.append(buf.value)
+                primitive_type = sdfg_type.primitive_type
+                if primitive_type == PrimitiveType.Half:
+                    results.append(np.frombuffer(buf, dtype=np.float16)[0])
+                elif primitive_type == PrimitiveType.BFloat:
+                    results.append(np.frombuffer(buf, dtype=ml_dtypes.bfloat16)[0])
+                else:
+                    results.append(buf.value)
             else:
                 # Array
                 # buf is (c_double * size) instance.
-- 
2.43.0


From 88f33c92764c70203fb534e7d6f5890e258e88f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 22/52] fix: processes and threads compiling the same function
 destroy each other's output

The output folder is removed and rebuilt by everyone who compiles the same function:
keep it locked from removing it until the library is loaded.
---
 mlir/docc/torch/__init__.py          | 24 ++++++++++------
 python/docc/compiler/docc_program.py | 12 ++++++++
 python/docc/python/python_program.py | 43 ++++++++++++++++++++++------
 3 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/mlir/docc/torch/__init__.py b/mlir/docc/torch/__init__.py
index 0fb423d..6e72b8f 100644
--- a/mlir/docc/torch/__init__.py
+++ b/mlir/docc/torch/__init__.py
@@ -7,6 +7,7 @@ from typing import Any, Optional
 from docc.sdfg import StructuredSDFG
 from docc.mlir import MLIRModule
 from docc.compiler import DoccProgram, CompiledSDFG
+from docc.compiler.docc_program import build_lock
 
 # Global RPC context for scheduling SDFGs
 sdfg_rpc_context = None
@@ -143,6 +144,20 @@ class TorchProgram(DoccProgram):
                     user = getpass.getuser()
                 output_folder = f"/tmp/{user}/DOCC/{self.name}-{stable_id}"
 
+        # Multiple python processes running the same code?
+        with build_lock(output_folder):
+            compiled = self._build(output_folder, instrumentation_mode, capture_args)
+
+        # Cache
+        if original_output_folder is None:
+            self.cache[cache_key] = compiled
+
+        self._compiled = compiled
+        return compiled
+
+    def _build(
+        self, output_folder: str, instrumentation_mode: str, capture_args: bool
+    ) -> CompiledSDFG:
         if os.path.exists(output_folder):
             shutil.rmtree(output_folder)
 
@@ -202,19 +217,12 @@ class TorchProgram(DoccProgram):
                     shape_sources.append((i, dim_idx))
 
         # Create CompiledSDFG
-        compiled = CompiledSDFG(
+        return CompiledSDFG(
             lib_path,
             sdfg,
             shape_sources=shape_sources,
         )
 
-        # Cache
-        if original_output_folder is None:
-            self.cache[cache_key] = compiled
-
-        self._compiled = compiled
-        return compiled
-
     def to_sdfg(self) -> StructuredSDFG:
         try:
             from torch_mlir import fx
diff --git a/python/docc/compiler/docc_program.py b/python/docc/compiler/docc_program.py
index bdf4e15..70b7873 100644
--- a/python/docc/compiler/docc_program.py
+++ b/python/docc/compiler/docc_program.py
@@ -1,3 +1,6 @@
+import contextlib
+import fcntl
+import os
 from abc import ABC, abstractmethod
 from typing import Any, Optional
 
@@ -5,6 +8,15 @@ from docc.sdfg import StructuredSDFG
 from docc.compiler.compiled_sdfg import CompiledSDFG
 
 
+@contextlib.contextmanager
+def build_lock(output_folder: str):
+    """Keeps other processes and threads out of a folder while it is being built."""
+    os.makedirs(os.path.dirname(os.path.abspath(output_folder)), exist_ok=True)
+    with open(f"{output_folder}.lock", "w") as lock_file:
+        fcntl.flock(lock_file, fcntl.LOCK_EX)
+        yield
+
+
 class DoccProgram(ABC):
 
     def __init__(
diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index 85c2d66..bb9c13c 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -20,7 +20,7 @@ from docc.sdfg import (
     StructuredSDFG,
     StructuredSDFGBuilder,
 )
-from docc.compiler.docc_program import DoccProgram
+from docc.compiler.docc_program import DoccProgram, build_lock
 from docc.compiler.compiled_sdfg import CompiledSDFG
 from docc.python.ast_parser import ASTParser
 from docc.python.types import element_type_from_sdfg_type
@@ -265,9 +265,40 @@ class PythonProgram(DoccProgram):
         if original_output_folder is None and signature in self.cache:
             return self.cache[signature]
 
+        # Multiple python processes running the same code?
+        with build_lock(output_folder):
+            compiled = self._build(
+                output_folder,
+                instrumentation_mode,
+                capture_args,
+                args,
+                arg_types,
+                arg_shape_mapping,
+                shape_values,
+                shape_sources,
+                shape_to_scalar,
+            )
+
+        # Cache if using default output folder
+        if original_output_folder is None:
+            self.cache[signature] = compiled
+
+        return compiled
+
+    def _build(
+        self,
+        output_folder,
+        instrumentation_mode,
+        capture_args,
+        args,
+        arg_types,
+        arg_shape_mapping,
+        shape_values,
+        shape_sources,
+        shape_to_scalar,
+    ) -> CompiledSDFG:
         # 3. Build SDFG
         if os.path.exists(output_folder):
-            # Multiple python processes running the same code?
             shutil.rmtree(output_folder)
         sdfg, out_args, out_shapes, out_strides = self._build_sdfg(
             arg_types, args, arg_shape_mapping, shape_values, shape_to_scalar
@@ -324,7 +355,7 @@ class PythonProgram(DoccProgram):
                 print(f"Generated ONNX models: {onnx_model_path}")
 
         # 5. Create CompiledSDFG
-        compiled = CompiledSDFG(
+        return CompiledSDFG(
             lib_path,
             sdfg,
             shape_sources,
@@ -334,12 +365,6 @@ class PythonProgram(DoccProgram):
             out_strides,
         )
 
-        # Cache if using default output folder
-        if original_output_folder is None:
-            self.cache[signature] = compiled
-
-        return compiled
-
     def to_sdfg(self, *args: Any) -> StructuredSDFG:
         arg_types = [self._infer_type(arg) for arg in args]
 
-- 
2.43.0


From 524f5dbdc8691fce8eb9b95b34cacd1c12b45cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 23/52] fix: structure members are mixed up when threads
 compile one program

---
 python/docc/python/python_program.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index bb9c13c..ca0ac51 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -120,7 +120,6 @@ class PythonProgram(DoccProgram):
             remote_tuning=remote_tuning,
         )
         self.func = func
-        self._last_structure_member_info = {}
 
     def __call__(self, *args: Any) -> Any:
         # JIT compile and run
@@ -300,7 +299,7 @@ class PythonProgram(DoccProgram):
         # 3. Build SDFG
         if os.path.exists(output_folder):
             shutil.rmtree(output_folder)
-        sdfg, out_args, out_shapes, out_strides = self._build_sdfg(
+        sdfg, out_args, out_shapes, out_strides, member_info = self._build_sdfg(
             arg_types, args, arg_shape_mapping, shape_values, shape_to_scalar
         )
         sdfg.validate()
@@ -359,7 +358,7 @@ class PythonProgram(DoccProgram):
             lib_path,
             sdfg,
             shape_sources,
-            self._last_structure_member_info,
+            member_info,
             out_args,
             out_shapes,
             out_strides,
@@ -400,7 +399,7 @@ class PythonProgram(DoccProgram):
             if s_val in scalar_int_params:
                 shape_to_scalar[s_idx] = scalar_int_params[s_val]
 
-        sdfg, _, _, _ = self._build_sdfg(
+        sdfg, _, _, _, _ = self._build_sdfg(
             arg_types, args, arg_shape_mapping, shape_values, shape_to_scalar
         )
         return sdfg
@@ -621,9 +620,6 @@ class PythonProgram(DoccProgram):
                                     )
                                 }
 
-        # Store structure_member_info for later use in CompiledSDFG
-        self._last_structure_member_info = structure_member_info
-
         # Register all discovered structures with the builder
         for struct_name, member_types in structures_to_register.items():
             builder.add_structure(struct_name, member_types)
@@ -753,6 +749,7 @@ class PythonProgram(DoccProgram):
             out_args,
             parser.captured_return_shapes,
             parser.captured_return_strides,
+            structure_member_info,
         )
 
 
-- 
2.43.0


From d1e72bc0c9e12a2e694addd135c0b7c98142d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 24/52] fix: remote tuning keeps the target and credentials of
 the first compilation

SchedulerRegistry ignored every registration but the first one of a name, so
that a second compilation in the same process was tuned for the target and
category of the first, on its server and with its credentials.
---
 .../sdfg/passes/scheduler/scheduler_registry.h     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opt/include/sdfg/passes/scheduler/scheduler_registry.h b/opt/include/sdfg/passes/scheduler/scheduler_registry.h
index 251d620..42b983c 100644
--- a/opt/include/sdfg/passes/scheduler/scheduler_registry.h
+++ b/opt/include/sdfg/passes/scheduler/scheduler_registry.h
@@ -1,6 +1,10 @@
 #pragma once
 
 #include <memory>
+#include <mutex>
+#include <string>
+#include <unordered_map>
+#include <vector>
 #include "sdfg/passes/scheduler/loop_scheduler.h"
 
 namespace sdfg {
@@ -11,6 +15,8 @@ class SchedulerRegistry {
 private:
     mutable std::mutex mutex_;
     std::unordered_map<std::string, std::unique_ptr<LoopScheduler>> scheduler_map_;
+    // Schedulers that have been replaced; passes may still be using them
+    std::vector<std::unique_ptr<LoopScheduler>> replaced_;
 
 public:
     static SchedulerRegistry& instance() {
@@ -21,10 +27,12 @@ public:
     template<typename T, typename... Args>
     void register_loop_scheduler(std::string target, Args... args) {
         std::lock_guard<std::mutex> lock(mutex_);
-        if (scheduler_map_.find(target) != scheduler_map_.end()) {
-            return;
+        auto& scheduler = scheduler_map_[target];
+        if (scheduler) {
+            // The latest registration counts, it may have been made with other arguments
+            replaced_.push_back(std::move(scheduler));
         }
-        scheduler_map_[target] = std::make_unique<T>(std::forward<Args>(args)...);
+        scheduler = std::make_unique<T>(std::forward<Args>(args)...);
     }
     LoopScheduler* get_loop_scheduler(std::string target) const {
         auto it = scheduler_map_.find(target);
-- 
2.43.0


From cf237aafbefb7e83f82f95686c93ca5bb67823eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:31 +0000
Subject: [PATCH 25/52] fix: a malformed transformation description ends the
 process

The replayer and the transformations read descriptions, which come from files
and from the tuning service, with operator[] on a constant object, which must
not be used for a missing key, and did not check the kind of the element.
---
 sdfg/src/transformations/loop_distribute.cpp   | 2 +-
 sdfg/src/transformations/loop_interchange.cpp  | 4 ++--
 sdfg/src/transformations/loop_tiling.cpp       | 9 +++++++--
 sdfg/src/transformations/out_local_storage.cpp | 9 +++++++--
 sdfg/src/transformations/replayer.cpp          | 2 +-
 5 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/sdfg/src/transformations/loop_distribute.cpp b/sdfg/src/transformations/loop_distribute.cpp
index 1c2f9ec..8d2647c 100644
--- a/sdfg/src/transformations/loop_distribute.cpp
+++ b/sdfg/src/transformations/loop_distribute.cpp
@@ -125,7 +125,7 @@ void LoopDistribute::to_json(nlohmann::json& j) const {
 };
 
 LoopDistribute LoopDistribute::from_json(builder::StructuredSDFGBuilder& builder, const nlohmann::json& desc) {
-    auto loop_id = desc["subgraph"]["0"]["element_id"].get<size_t>();
+    auto loop_id = desc.at("subgraph").at("0").at("element_id").get<size_t>();
     auto element = builder.find_element_by_id(loop_id);
     if (element == nullptr) {
         throw InvalidTransformationDescriptionException("Element with ID " + std::to_string(loop_id) + " not found.");
diff --git a/sdfg/src/transformations/loop_interchange.cpp b/sdfg/src/transformations/loop_interchange.cpp
index 45f1af0..217ffb1 100644
--- a/sdfg/src/transformations/loop_interchange.cpp
+++ b/sdfg/src/transformations/loop_interchange.cpp
@@ -146,8 +146,8 @@ void LoopInterchange::to_json(nlohmann::json& j) const {
 };
 
 LoopInterchange LoopInterchange::from_json(builder::StructuredSDFGBuilder& builder, const nlohmann::json& desc) {
-    auto outer_loop_id = desc["subgraph"]["0"]["element_id"].get<size_t>();
-    auto inner_loop_id = desc["subgraph"]["1"]["element_id"].get<size_t>();
+    auto outer_loop_id = desc.at("subgraph").at("0").at("element_id").get<size_t>();
+    auto inner_loop_id = desc.at("subgraph").at("1").at("element_id").get<size_t>();
     auto outer_element = builder.find_element_by_id(outer_loop_id);
     auto inner_element = builder.find_element_by_id(inner_loop_id);
     if (outer_element == nullptr) {
diff --git a/sdfg/src/transformations/loop_tiling.cpp b/sdfg/src/transformations/loop_tiling.cpp
index 32cc927..3ed5997 100644
--- a/sdfg/src/transformations/loop_tiling.cpp
+++ b/sdfg/src/transformations/loop_tiling.cpp
@@ -105,13 +105,18 @@ void LoopTiling::to_json(nlohmann::json& j) const {
 };
 
 LoopTiling LoopTiling::from_json(builder::StructuredSDFGBuilder& builder, const nlohmann::json& desc) {
-    auto loop_id = desc["subgraph"]["0"]["element_id"].get<size_t>();
-    size_t tile_size = desc["parameters"]["tile_size"].get<size_t>();
+    auto loop_id = desc.at("subgraph").at("0").at("element_id").get<size_t>();
+    size_t tile_size = desc.at("parameters").at("tile_size").get<size_t>();
     auto element = builder.find_element_by_id(loop_id);
     if (!element) {
         throw InvalidTransformationDescriptionException("Element with ID " + std::to_string(loop_id) + " not found.");
     }
     auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(element);
+    if (!loop) {
+        throw InvalidTransformationDescriptionException(
+            "Element with ID " + std::to_string(loop_id) + " is not a StructuredLoop."
+        );
+    }
 
     return LoopTiling(*loop, tile_size);
 };
diff --git a/sdfg/src/transformations/out_local_storage.cpp b/sdfg/src/transformations/out_local_storage.cpp
index 3df8f24..319c052 100644
--- a/sdfg/src/transformations/out_local_storage.cpp
+++ b/sdfg/src/transformations/out_local_storage.cpp
@@ -292,13 +292,18 @@ void OutLocalStorage::to_json(nlohmann::json& j) const {
 };
 
 OutLocalStorage OutLocalStorage::from_json(builder::StructuredSDFGBuilder& builder, const nlohmann::json& desc) {
-    auto loop_id = desc["subgraph"]["0"]["element_id"].get<size_t>();
-    std::string container = desc["container"].get<std::string>();
+    auto loop_id = desc.at("subgraph").at("0").at("element_id").get<size_t>();
+    std::string container = desc.at("container").get<std::string>();
     auto element = builder.find_element_by_id(loop_id);
     if (!element) {
         throw InvalidTransformationDescriptionException("Element with ID " + std::to_string(loop_id) + " not found.");
     }
     auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(element);
+    if (!loop) {
+        throw InvalidTransformationDescriptionException(
+            "Element with ID " + std::to_string(loop_id) + " is not a StructuredLoop."
+        );
+    }
 
     return OutLocalStorage(*loop, container);
 };
diff --git a/sdfg/src/transformations/replayer.cpp b/sdfg/src/transformations/replayer.cpp
index 0f0ef3d..ef8db48 100644
--- a/sdfg/src/transformations/replayer.cpp
+++ b/sdfg/src/transformations/replayer.cpp
@@ -19,7 +19,7 @@ void Replayer::replay(
     }
 
     for (const auto& desc : transformation_data) {
-        auto transformation_name = desc["transformation_type"];
+        auto transformation_name = desc.at("transformation_type");
 
         if (transformation_name == "LoopTiling") {
             this->apply<transformations::LoopTiling>(builder, analysis_manager, desc, skip_if_not_applicable);
-- 
2.43.0


From 3517f688d376812a9191f9450ce0e425af79e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:53 +0000
Subject: [PATCH 26/52] fix: deserializing a malformed SDFG ends the process

The deserializer checked its input with assertions and read it with operator[]
on constant objects, so that a malformed file, or answer of the tuning service,
aborted the compiler (or was undefined behaviour without assertions) instead of
being reported as an error, which callers expect and handle.
---
 sdfg/src/serializer/json_serializer.cpp | 709 ++++++++++++------------
 1 file changed, 359 insertions(+), 350 deletions(-)

diff --git a/sdfg/src/serializer/json_serializer.cpp b/sdfg/src/serializer/json_serializer.cpp
index d6614b2..a12d9bd 100644
--- a/sdfg/src/serializer/json_serializer.cpp
+++ b/sdfg/src/serializer/json_serializer.cpp
@@ -481,15 +481,24 @@ void JSONSerializer::storage_type_to_json(nlohmann::json& j, const types::Storag
 
 /*
  * * Deserialization logic
+ *
+ * The input may come from files or services, malformed input is reported to the caller.
  */
 
+#define REQUIRE_JSON(condition)                                                       \
+    do {                                                                              \
+        if (!(condition)) {                                                           \
+            throw InvalidSDFGException("Malformed SDFG, required: " #condition);      \
+        }                                                                             \
+    } while (false)
+
 std::unique_ptr<StructuredSDFG> JSONSerializer::deserialize(nlohmann::json& j) {
-    assert(j.contains("name"));
-    assert(j["name"].is_string());
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j.contains("element_counter"));
-    assert(j["element_counter"].is_number_integer());
+    REQUIRE_JSON(j.contains("name"));
+    REQUIRE_JSON(j["name"].is_string());
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j["type"].is_string());
+    REQUIRE_JSON(j.contains("element_counter"));
+    REQUIRE_JSON(j["element_counter"].is_number_integer());
 
     std::unique_ptr<types::IType> return_type;
     if (j.contains("return_type")) {
@@ -505,11 +514,11 @@ std::unique_ptr<StructuredSDFG> JSONSerializer::deserialize(nlohmann::json& j) {
     builder.set_element_counter(element_counter);
 
     // deserialize structures
-    assert(j.contains("structures"));
-    assert(j["structures"].is_array());
+    REQUIRE_JSON(j.contains("structures"));
+    REQUIRE_JSON(j["structures"].is_array());
     for (const auto& structure : j["structures"]) {
-        assert(structure.contains("name"));
-        assert(structure["name"].is_string());
+        REQUIRE_JSON(structure.contains("name"));
+        REQUIRE_JSON(structure["name"].is_string());
         json_to_structure_definition(structure, builder);
     }
 
@@ -517,10 +526,10 @@ std::unique_ptr<StructuredSDFG> JSONSerializer::deserialize(nlohmann::json& j) {
 
     // deserialize externals
     for (const auto& external : j["externals"]) {
-        assert(external.contains("name"));
-        assert(external["name"].is_string());
-        assert(external.contains("linkage_type"));
-        assert(external["linkage_type"].is_number_integer());
+        REQUIRE_JSON(external.contains("name"));
+        REQUIRE_JSON(external["name"].is_string());
+        REQUIRE_JSON(external.contains("linkage_type"));
+        REQUIRE_JSON(external["linkage_type"].is_number_integer());
         auto& type_desc = containers.at(external["name"].get<std::string>());
         auto type = json_to_type(type_desc);
         builder.add_external(external["name"], *type, LinkageType(external["linkage_type"]));
@@ -546,13 +555,13 @@ std::unique_ptr<StructuredSDFG> JSONSerializer::deserialize(nlohmann::json& j) {
     }
 
     // deserialize root node
-    assert(j.contains("root"));
+    REQUIRE_JSON(j.contains("root"));
     auto& root = builder.subject().root();
     json_to_sequence(j["root"], builder, root);
 
     // deserialize metadata
-    assert(j.contains("metadata"));
-    assert(j["metadata"].is_object());
+    REQUIRE_JSON(j.contains("metadata"));
+    REQUIRE_JSON(j["metadata"].is_object());
     for (const auto& entry : j["metadata"].items()) {
         builder.subject().add_metadata(entry.key(), entry.value());
     }
@@ -563,15 +572,15 @@ std::unique_ptr<StructuredSDFG> JSONSerializer::deserialize(nlohmann::json& j) {
 }
 
 void JSONSerializer::json_to_structure_definition(const nlohmann::json& j, builder::StructuredSDFGBuilder& builder) {
-    assert(j.contains("name"));
-    assert(j["name"].is_string());
-    assert(j.contains("members"));
-    assert(j["members"].is_array());
-    assert(j.contains("is_packed"));
-    assert(j["is_packed"].is_boolean());
-    auto is_packed = j["is_packed"];
-    auto& definition = builder.add_structure(j["name"], is_packed);
-    for (const auto& member : j["members"]) {
+    REQUIRE_JSON(j.contains("name"));
+    REQUIRE_JSON(j.at("name").is_string());
+    REQUIRE_JSON(j.contains("members"));
+    REQUIRE_JSON(j.at("members").is_array());
+    REQUIRE_JSON(j.contains("is_packed"));
+    REQUIRE_JSON(j.at("is_packed").is_boolean());
+    auto is_packed = j.at("is_packed");
+    auto& definition = builder.add_structure(j.at("name"), is_packed);
+    for (const auto& member : j.at("members")) {
         nlohmann::json member_json;
         auto member_type = json_to_type(member);
         definition.add_member(*member_type);
@@ -581,12 +590,12 @@ void JSONSerializer::json_to_structure_definition(const nlohmann::json& j, build
 std::vector<std::pair<std::string, types::Scalar>> JSONSerializer::json_to_arguments(const nlohmann::json& j) {
     std::vector<std::pair<std::string, types::Scalar>> arguments;
     for (const auto& argument : j) {
-        assert(argument.contains("name"));
-        assert(argument["name"].is_string());
-        assert(argument.contains("type"));
-        assert(argument["type"].is_object());
-        std::string name = argument["name"];
-        auto type = json_to_type(argument["type"]);
+        REQUIRE_JSON(argument.contains("name"));
+        REQUIRE_JSON(argument.at("name").is_string());
+        REQUIRE_JSON(argument.contains("type"));
+        REQUIRE_JSON(argument.at("type").is_object());
+        std::string name = argument.at("name");
+        auto type = json_to_type(argument.at("type"));
         arguments.emplace_back(name, *dynamic_cast<types::Scalar*>(type.get()));
     }
     return arguments;
@@ -597,31 +606,31 @@ void JSONSerializer::json_to_dataflow(
 ) {
     std::map<size_t, data_flow::DataFlowNode&> nodes_map;
 
-    assert(j.contains("nodes"));
-    assert(j["nodes"].is_array());
-    for (const auto& node : j["nodes"]) {
-        assert(node.contains("type"));
-        assert(node["type"].is_string());
-        assert(node.contains("element_id"));
-        assert(node["element_id"].is_number_integer());
-        std::string type = node["type"];
+    REQUIRE_JSON(j.contains("nodes"));
+    REQUIRE_JSON(j.at("nodes").is_array());
+    for (const auto& node : j.at("nodes")) {
+        REQUIRE_JSON(node.contains("type"));
+        REQUIRE_JSON(node.at("type").is_string());
+        REQUIRE_JSON(node.contains("element_id"));
+        REQUIRE_JSON(node.at("element_id").is_number_integer());
+        std::string type = node.at("type");
         if (type == "tasklet") {
-            assert(node.contains("code"));
-            assert(node["code"].is_number_integer());
-            assert(node.contains("inputs"));
-            assert(node["inputs"].is_array());
-            assert(node.contains("output"));
-            assert(node["output"].is_string());
-            auto inputs = node["inputs"].get<std::vector<std::string>>();
+            REQUIRE_JSON(node.contains("code"));
+            REQUIRE_JSON(node.at("code").is_number_integer());
+            REQUIRE_JSON(node.contains("inputs"));
+            REQUIRE_JSON(node.at("inputs").is_array());
+            REQUIRE_JSON(node.contains("output"));
+            REQUIRE_JSON(node.at("output").is_string());
+            auto inputs = node.at("inputs").get<std::vector<std::string>>();
 
             auto& tasklet =
                 builder
-                    .add_tasklet(parent, node["code"], node["output"], inputs, json_to_debug_info(node["debug_info"]));
-            tasklet.element_id_ = node["element_id"];
-            nodes_map.insert({node["element_id"], tasklet});
+                    .add_tasklet(parent, node.at("code"), node.at("output"), inputs, json_to_debug_info(node.at("debug_info")));
+            tasklet.element_id_ = node.at("element_id");
+            nodes_map.insert({node.at("element_id"), tasklet});
         } else if (type == "library_node") {
-            assert(node.contains("code"));
-            data_flow::LibraryNodeCode code(node["code"].get<std::string>());
+            REQUIRE_JSON(node.contains("code"));
+            data_flow::LibraryNodeCode code(node.at("code").get<std::string>());
 
             auto serializer_fn = LibraryNodeSerializerRegistry::instance().get_library_node_serializer(code.value());
             if (serializer_fn == nullptr) {
@@ -630,55 +639,55 @@ void JSONSerializer::json_to_dataflow(
             auto serializer = serializer_fn();
             auto& lib_node = serializer->deserialize(node, builder, parent);
             lib_node.implementation_type() =
-                data_flow::ImplementationType(node["implementation_type"].get<std::string>());
-            lib_node.element_id_ = node["element_id"];
-            nodes_map.insert({node["element_id"], lib_node});
+                data_flow::ImplementationType(node.at("implementation_type").get<std::string>());
+            lib_node.element_id_ = node.at("element_id");
+            nodes_map.insert({node.at("element_id"), lib_node});
         } else if (type == "access_node") {
-            assert(node.contains("data"));
-            auto& access_node = builder.add_access(parent, node["data"], json_to_debug_info(node["debug_info"]));
-            access_node.element_id_ = node["element_id"];
-            nodes_map.insert({node["element_id"], access_node});
+            REQUIRE_JSON(node.contains("data"));
+            auto& access_node = builder.add_access(parent, node.at("data"), json_to_debug_info(node.at("debug_info")));
+            access_node.element_id_ = node.at("element_id");
+            nodes_map.insert({node.at("element_id"), access_node});
         } else if (type == "constant_node") {
-            assert(node.contains("data"));
-            assert(node.contains("data_type"));
+            REQUIRE_JSON(node.contains("data"));
+            REQUIRE_JSON(node.contains("data_type"));
 
-            auto type = json_to_type(node["data_type"]);
+            auto type = json_to_type(node.at("data_type"));
 
             auto& constant_node =
-                builder.add_constant(parent, node["data"], *type, json_to_debug_info(node["debug_info"]));
-            constant_node.element_id_ = node["element_id"];
-            nodes_map.insert({node["element_id"], constant_node});
+                builder.add_constant(parent, node.at("data"), *type, json_to_debug_info(node.at("debug_info")));
+            constant_node.element_id_ = node.at("element_id");
+            nodes_map.insert({node.at("element_id"), constant_node});
         } else {
             throw std::runtime_error("Unknown node type");
         }
     }
 
-    assert(j.contains("edges"));
-    assert(j["edges"].is_array());
-    for (const auto& edge : j["edges"]) {
-        assert(edge.contains("src"));
-        assert(edge["src"].is_number_integer());
-        assert(edge.contains("dst"));
-        assert(edge["dst"].is_number_integer());
-        assert(edge.contains("src_conn"));
-        assert(edge["src_conn"].is_string());
-        assert(edge.contains("dst_conn"));
-        assert(edge["dst_conn"].is_string());
-        assert(edge.contains("subset"));
-        assert(edge["subset"].is_array());
-
-        assert(nodes_map.find(edge["src"]) != nodes_map.end());
-        assert(nodes_map.find(edge["dst"]) != nodes_map.end());
-        auto& source = nodes_map.at(edge["src"]);
-        auto& target = nodes_map.at(edge["dst"]);
-
-        auto base_type = json_to_type(edge["base_type"]);
-
-        assert(edge.contains("subset"));
-        assert(edge["subset"].is_array());
+    REQUIRE_JSON(j.contains("edges"));
+    REQUIRE_JSON(j.at("edges").is_array());
+    for (const auto& edge : j.at("edges")) {
+        REQUIRE_JSON(edge.contains("src"));
+        REQUIRE_JSON(edge.at("src").is_number_integer());
+        REQUIRE_JSON(edge.contains("dst"));
+        REQUIRE_JSON(edge.at("dst").is_number_integer());
+        REQUIRE_JSON(edge.contains("src_conn"));
+        REQUIRE_JSON(edge.at("src_conn").is_string());
+        REQUIRE_JSON(edge.contains("dst_conn"));
+        REQUIRE_JSON(edge.at("dst_conn").is_string());
+        REQUIRE_JSON(edge.contains("subset"));
+        REQUIRE_JSON(edge.at("subset").is_array());
+
+        REQUIRE_JSON(nodes_map.find(edge.at("src")) != nodes_map.end());
+        REQUIRE_JSON(nodes_map.find(edge.at("dst")) != nodes_map.end());
+        auto& source = nodes_map.at(edge.at("src"));
+        auto& target = nodes_map.at(edge.at("dst"));
+
+        auto base_type = json_to_type(edge.at("base_type"));
+
+        REQUIRE_JSON(edge.contains("subset"));
+        REQUIRE_JSON(edge.at("subset").is_array());
         std::vector<symbolic::Expression> subset;
-        for (const auto& subset_ : edge["subset"]) {
-            assert(subset_.is_string());
+        for (const auto& subset_ : edge.at("subset")) {
+            REQUIRE_JSON(subset_.is_string());
             std::string subset_str = subset_;
             auto expr = symbolic::parse(subset_str);
             subset.push_back(expr);
@@ -686,78 +695,78 @@ void JSONSerializer::json_to_dataflow(
         auto& memlet = builder.add_memlet(
             parent,
             source,
-            edge["src_conn"],
+            edge.at("src_conn"),
             target,
-            edge["dst_conn"],
+            edge.at("dst_conn"),
             subset,
             *base_type,
-            json_to_debug_info(edge["debug_info"])
+            json_to_debug_info(edge.at("debug_info"))
         );
-        memlet.element_id_ = edge["element_id"];
+        memlet.element_id_ = edge.at("element_id");
     }
 }
 
 void JSONSerializer::json_to_sequence(
     const nlohmann::json& j, builder::StructuredSDFGBuilder& builder, structured_control_flow::Sequence& sequence
 ) {
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j.contains("children"));
-    assert(j["children"].is_array());
-    assert(j.contains("transitions"));
-    assert(j["transitions"].is_array());
-    assert(j["transitions"].size() == j["children"].size());
-
-    sequence.element_id_ = j["element_id"];
-    sequence.debug_info_ = json_to_debug_info(j["debug_info"]);
-
-    std::string type = j["type"];
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j.at("type").is_string());
+    REQUIRE_JSON(j.contains("children"));
+    REQUIRE_JSON(j.at("children").is_array());
+    REQUIRE_JSON(j.contains("transitions"));
+    REQUIRE_JSON(j.at("transitions").is_array());
+    REQUIRE_JSON(j.at("transitions").size() == j.at("children").size());
+
+    sequence.element_id_ = j.at("element_id");
+    sequence.debug_info_ = json_to_debug_info(j.at("debug_info"));
+
+    std::string type = j.at("type");
     if (type == "sequence") {
-        for (size_t i = 0; i < j["children"].size(); i++) {
-            auto& child = j["children"][i];
-            auto& transition = j["transitions"][i];
-            assert(child.contains("type"));
-            assert(child["type"].is_string());
-
-            assert(transition.contains("type"));
-            assert(transition["type"].is_string());
-            assert(transition.contains("assignments"));
-            assert(transition["assignments"].is_array());
+        for (size_t i = 0; i < j.at("children").size(); i++) {
+            auto& child = j.at("children")[i];
+            auto& transition = j.at("transitions")[i];
+            REQUIRE_JSON(child.contains("type"));
+            REQUIRE_JSON(child.at("type").is_string());
+
+            REQUIRE_JSON(transition.contains("type"));
+            REQUIRE_JSON(transition.at("type").is_string());
+            REQUIRE_JSON(transition.contains("assignments"));
+            REQUIRE_JSON(transition.at("assignments").is_array());
             control_flow::Assignments assignments;
-            for (const auto& assignment : transition["assignments"]) {
-                assert(assignment.contains("symbol"));
-                assert(assignment["symbol"].is_string());
-                assert(assignment.contains("expression"));
-                assert(assignment["expression"].is_string());
-                auto expr = symbolic::parse(assignment["expression"].get<std::string>());
-                assignments.insert({symbolic::symbol(assignment["symbol"]), expr});
+            for (const auto& assignment : transition.at("assignments")) {
+                REQUIRE_JSON(assignment.contains("symbol"));
+                REQUIRE_JSON(assignment.at("symbol").is_string());
+                REQUIRE_JSON(assignment.contains("expression"));
+                REQUIRE_JSON(assignment.at("expression").is_string());
+                auto expr = symbolic::parse(assignment.at("expression").get<std::string>());
+                assignments.insert({symbolic::symbol(assignment.at("symbol")), expr});
             }
 
-            if (child["type"] == "block") {
+            if (child.at("type") == "block") {
                 json_to_block_node(child, builder, sequence, assignments);
-            } else if (child["type"] == "for") {
+            } else if (child.at("type") == "for") {
                 json_to_for_node(child, builder, sequence, assignments);
-            } else if (child["type"] == "if_else") {
+            } else if (child.at("type") == "if_else") {
                 json_to_if_else_node(child, builder, sequence, assignments);
-            } else if (child["type"] == "while") {
+            } else if (child.at("type") == "while") {
                 json_to_while_node(child, builder, sequence, assignments);
-            } else if (child["type"] == "break") {
+            } else if (child.at("type") == "break") {
                 json_to_break_node(child, builder, sequence, assignments);
-            } else if (child["type"] == "continue") {
+            } else if (child.at("type") == "continue") {
                 json_to_continue_node(child, builder, sequence, assignments);
-            } else if (child["type"] == "return") {
+            } else if (child.at("type") == "return") {
                 json_to_return_node(child, builder, sequence, assignments);
-            } else if (child["type"] == "map") {
+            } else if (child.at("type") == "map") {
                 json_to_map_node(child, builder, sequence, assignments);
-            } else if (child["type"] == "sequence") {
-                auto& subseq = builder.add_sequence(sequence, assignments, json_to_debug_info(child["debug_info"]));
+            } else if (child.at("type") == "sequence") {
+                auto& subseq = builder.add_sequence(sequence, assignments, json_to_debug_info(child.at("debug_info")));
                 json_to_sequence(child, builder, subseq);
             } else {
                 throw std::runtime_error("Unknown child type");
             }
 
-            sequence.at(i).second.debug_info_ = json_to_debug_info(transition["debug_info"]);
-            sequence.at(i).second.element_id_ = transition["element_id"];
+            sequence.at(i).second.debug_info_ = json_to_debug_info(transition.at("debug_info"));
+            sequence.at(i).second.element_id_ = transition.at("element_id");
         }
     } else {
         throw std::runtime_error("expected sequence type");
@@ -770,17 +779,17 @@ void JSONSerializer::json_to_block_node(
     structured_control_flow::Sequence& parent,
     control_flow::Assignments& assignments
 ) {
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j.contains("dataflow"));
-    assert(j["dataflow"].is_object());
-    auto& block = builder.add_block(parent, assignments, json_to_debug_info(j["debug_info"]));
-    block.element_id_ = j["element_id"];
-    assert(j["dataflow"].contains("type"));
-    assert(j["dataflow"]["type"].is_string());
-    std::string type = j["dataflow"]["type"];
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j.at("type").is_string());
+    REQUIRE_JSON(j.contains("dataflow"));
+    REQUIRE_JSON(j.at("dataflow").is_object());
+    auto& block = builder.add_block(parent, assignments, json_to_debug_info(j.at("debug_info")));
+    block.element_id_ = j.at("element_id");
+    REQUIRE_JSON(j.at("dataflow").contains("type"));
+    REQUIRE_JSON(j.at("dataflow").at("type").is_string());
+    std::string type = j.at("dataflow").at("type");
     if (type == "dataflow") {
-        json_to_dataflow(j["dataflow"], builder, block);
+        json_to_dataflow(j.at("dataflow"), builder, block);
     } else {
         throw std::runtime_error("Unknown dataflow type");
     }
@@ -792,37 +801,37 @@ void JSONSerializer::json_to_for_node(
     structured_control_flow::Sequence& parent,
     control_flow::Assignments& assignments
 ) {
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j.contains("indvar"));
-    assert(j["indvar"].is_string());
-    assert(j.contains("init"));
-    assert(j["init"].is_string());
-    assert(j.contains("condition"));
-    assert(j["condition"].is_string());
-    assert(j.contains("update"));
-    assert(j["update"].is_string());
-    assert(j.contains("root"));
-    assert(j["root"].is_object());
-
-    symbolic::Symbol indvar = symbolic::symbol(j["indvar"]);
-    auto init = symbolic::parse(j["init"].get<std::string>());
-    auto update = symbolic::parse(j["update"].get<std::string>());
-
-    auto condition_expr = symbolic::parse(j["condition"].get<std::string>());
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j.at("type").is_string());
+    REQUIRE_JSON(j.contains("indvar"));
+    REQUIRE_JSON(j.at("indvar").is_string());
+    REQUIRE_JSON(j.contains("init"));
+    REQUIRE_JSON(j.at("init").is_string());
+    REQUIRE_JSON(j.contains("condition"));
+    REQUIRE_JSON(j.at("condition").is_string());
+    REQUIRE_JSON(j.contains("update"));
+    REQUIRE_JSON(j.at("update").is_string());
+    REQUIRE_JSON(j.contains("root"));
+    REQUIRE_JSON(j.at("root").is_object());
+
+    symbolic::Symbol indvar = symbolic::symbol(j.at("indvar"));
+    auto init = symbolic::parse(j.at("init").get<std::string>());
+    auto update = symbolic::parse(j.at("update").get<std::string>());
+
+    auto condition_expr = symbolic::parse(j.at("condition").get<std::string>());
     symbolic::Condition condition = SymEngine::rcp_dynamic_cast<const SymEngine::Boolean>(condition_expr);
     if (condition.is_null()) {
         throw InvalidSDFGException("For loop condition is not a boolean expression");
     }
 
     auto& for_node =
-        builder.add_for(parent, indvar, condition, init, update, assignments, json_to_debug_info(j["debug_info"]));
-    for_node.element_id_ = j["element_id"];
+        builder.add_for(parent, indvar, condition, init, update, assignments, json_to_debug_info(j.at("debug_info")));
+    for_node.element_id_ = j.at("element_id");
 
-    assert(j["root"].contains("type"));
-    assert(j["root"]["type"].is_string());
-    assert(j["root"]["type"] == "sequence");
-    json_to_sequence(j["root"], builder, for_node.root());
+    REQUIRE_JSON(j.at("root").contains("type"));
+    REQUIRE_JSON(j.at("root").at("type").is_string());
+    REQUIRE_JSON(j.at("root").at("type") == "sequence");
+    json_to_sequence(j.at("root"), builder, for_node.root());
 }
 
 void JSONSerializer::json_to_if_else_node(
@@ -831,30 +840,30 @@ void JSONSerializer::json_to_if_else_node(
     structured_control_flow::Sequence& parent,
     control_flow::Assignments& assignments
 ) {
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j["type"] == "if_else");
-    assert(j.contains("branches"));
-    assert(j["branches"].is_array());
-    auto& if_else_node = builder.add_if_else(parent, assignments, json_to_debug_info(j["debug_info"]));
-    if_else_node.element_id_ = j["element_id"];
-    for (const auto& branch : j["branches"]) {
-        assert(branch.contains("condition"));
-        assert(branch["condition"].is_string());
-        assert(branch.contains("root"));
-        assert(branch["root"].is_object());
-
-        auto condition_expr = symbolic::parse(branch["condition"].get<std::string>());
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j.at("type").is_string());
+    REQUIRE_JSON(j.at("type") == "if_else");
+    REQUIRE_JSON(j.contains("branches"));
+    REQUIRE_JSON(j.at("branches").is_array());
+    auto& if_else_node = builder.add_if_else(parent, assignments, json_to_debug_info(j.at("debug_info")));
+    if_else_node.element_id_ = j.at("element_id");
+    for (const auto& branch : j.at("branches")) {
+        REQUIRE_JSON(branch.contains("condition"));
+        REQUIRE_JSON(branch.at("condition").is_string());
+        REQUIRE_JSON(branch.contains("root"));
+        REQUIRE_JSON(branch.at("root").is_object());
+
+        auto condition_expr = symbolic::parse(branch.at("condition").get<std::string>());
         symbolic::Condition condition = SymEngine::rcp_dynamic_cast<const SymEngine::Boolean>(condition_expr);
         if (condition.is_null()) {
             throw InvalidSDFGException("If condition is not a boolean expression");
         }
         auto& branch_node = builder.add_case(if_else_node, condition);
-        assert(branch["root"].contains("type"));
-        assert(branch["root"]["type"].is_string());
-        std::string type = branch["root"]["type"];
+        REQUIRE_JSON(branch.at("root").contains("type"));
+        REQUIRE_JSON(branch.at("root").at("type").is_string());
+        std::string type = branch.at("root").at("type");
         if (type == "sequence") {
-            json_to_sequence(branch["root"], builder, branch_node);
+            json_to_sequence(branch.at("root"), builder, branch_node);
         } else {
             throw std::runtime_error("Unknown child type");
         }
@@ -867,17 +876,17 @@ void JSONSerializer::json_to_while_node(
     structured_control_flow::Sequence& parent,
     control_flow::Assignments& assignments
 ) {
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j["type"] == "while");
-    assert(j.contains("root"));
-    assert(j["root"].is_object());
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j.at("type").is_string());
+    REQUIRE_JSON(j.at("type") == "while");
+    REQUIRE_JSON(j.contains("root"));
+    REQUIRE_JSON(j.at("root").is_object());
 
-    auto& while_node = builder.add_while(parent, assignments, json_to_debug_info(j["debug_info"]));
-    while_node.element_id_ = j["element_id"];
+    auto& while_node = builder.add_while(parent, assignments, json_to_debug_info(j.at("debug_info")));
+    while_node.element_id_ = j.at("element_id");
 
-    assert(j["root"]["type"] == "sequence");
-    json_to_sequence(j["root"], builder, while_node.root());
+    REQUIRE_JSON(j.at("root").at("type") == "sequence");
+    json_to_sequence(j.at("root"), builder, while_node.root());
 }
 
 void JSONSerializer::json_to_break_node(
@@ -886,11 +895,11 @@ void JSONSerializer::json_to_break_node(
     structured_control_flow::Sequence& parent,
     control_flow::Assignments& assignments
 ) {
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j["type"] == "break");
-    auto& node = builder.add_break(parent, assignments, json_to_debug_info(j["debug_info"]));
-    node.element_id_ = j["element_id"];
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j.at("type").is_string());
+    REQUIRE_JSON(j.at("type") == "break");
+    auto& node = builder.add_break(parent, assignments, json_to_debug_info(j.at("debug_info")));
+    node.element_id_ = j.at("element_id");
 }
 
 void JSONSerializer::json_to_continue_node(
@@ -899,11 +908,11 @@ void JSONSerializer::json_to_continue_node(
     structured_control_flow::Sequence& parent,
     control_flow::Assignments& assignments
 ) {
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j["type"] == "continue");
-    auto& node = builder.add_continue(parent, assignments, json_to_debug_info(j["debug_info"]));
-    node.element_id_ = j["element_id"];
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j.at("type").is_string());
+    REQUIRE_JSON(j.at("type") == "continue");
+    auto& node = builder.add_continue(parent, assignments, json_to_debug_info(j.at("debug_info")));
+    node.element_id_ = j.at("element_id");
 }
 
 void JSONSerializer::json_to_map_node(
@@ -912,42 +921,42 @@ void JSONSerializer::json_to_map_node(
     structured_control_flow::Sequence& parent,
     control_flow::Assignments& assignments
 ) {
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j["type"] == "map");
-    assert(j.contains("indvar"));
-    assert(j["indvar"].is_string());
-    assert(j.contains("init"));
-    assert(j["init"].is_string());
-    assert(j.contains("condition"));
-    assert(j["condition"].is_string());
-    assert(j.contains("update"));
-    assert(j["update"].is_string());
-    assert(j.contains("root"));
-    assert(j["root"].is_object());
-    assert(j.contains("schedule_type"));
-    assert(j["schedule_type"].is_object());
-
-    structured_control_flow::ScheduleType schedule_type = json_to_schedule_type(j["schedule_type"]);
-
-    symbolic::Symbol indvar = symbolic::symbol(j["indvar"]);
-    auto init = symbolic::parse(j["init"].get<std::string>());
-    auto update = symbolic::parse(j["update"].get<std::string>());
-    auto condition_expr = symbolic::parse(j["condition"].get<std::string>());
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j.at("type").is_string());
+    REQUIRE_JSON(j.at("type") == "map");
+    REQUIRE_JSON(j.contains("indvar"));
+    REQUIRE_JSON(j.at("indvar").is_string());
+    REQUIRE_JSON(j.contains("init"));
+    REQUIRE_JSON(j.at("init").is_string());
+    REQUIRE_JSON(j.contains("condition"));
+    REQUIRE_JSON(j.at("condition").is_string());
+    REQUIRE_JSON(j.contains("update"));
+    REQUIRE_JSON(j.at("update").is_string());
+    REQUIRE_JSON(j.contains("root"));
+    REQUIRE_JSON(j.at("root").is_object());
+    REQUIRE_JSON(j.contains("schedule_type"));
+    REQUIRE_JSON(j.at("schedule_type").is_object());
+
+    structured_control_flow::ScheduleType schedule_type = json_to_schedule_type(j.at("schedule_type"));
+
+    symbolic::Symbol indvar = symbolic::symbol(j.at("indvar"));
+    auto init = symbolic::parse(j.at("init").get<std::string>());
+    auto update = symbolic::parse(j.at("update").get<std::string>());
+    auto condition_expr = symbolic::parse(j.at("condition").get<std::string>());
     symbolic::Condition condition = SymEngine::rcp_dynamic_cast<const SymEngine::Boolean>(condition_expr);
     if (condition.is_null()) {
         throw InvalidSDFGException("Map condition is not a boolean expression");
     }
 
     auto& map_node = builder.add_map(
-        parent, indvar, condition, init, update, schedule_type, assignments, json_to_debug_info(j["debug_info"])
+        parent, indvar, condition, init, update, schedule_type, assignments, json_to_debug_info(j.at("debug_info"))
     );
-    map_node.element_id_ = j["element_id"];
+    map_node.element_id_ = j.at("element_id");
 
-    assert(j["root"].contains("type"));
-    assert(j["root"]["type"].is_string());
-    assert(j["root"]["type"] == "sequence");
-    json_to_sequence(j["root"], builder, map_node.root());
+    REQUIRE_JSON(j.at("root").contains("type"));
+    REQUIRE_JSON(j.at("root").at("type").is_string());
+    REQUIRE_JSON(j.at("root").at("type") == "sequence");
+    json_to_sequence(j.at("root"), builder, map_node.root());
 }
 
 void JSONSerializer::json_to_return_node(
@@ -956,141 +965,141 @@ void JSONSerializer::json_to_return_node(
     structured_control_flow::Sequence& parent,
     control_flow::Assignments& assignments
 ) {
-    assert(j.contains("type"));
-    assert(j["type"].is_string());
-    assert(j["type"] == "return");
+    REQUIRE_JSON(j.contains("type"));
+    REQUIRE_JSON(j.at("type").is_string());
+    REQUIRE_JSON(j.at("type") == "return");
 
-    std::string data = j["data"];
+    std::string data = j.at("data");
     std::unique_ptr<types::IType> data_type = nullptr;
     if (j.contains("data_type")) {
-        data_type = json_to_type(j["data_type"]);
+        data_type = json_to_type(j.at("data_type"));
     }
 
     if (data_type == nullptr) {
-        auto& node = builder.add_return(parent, data, assignments, json_to_debug_info(j["debug_info"]));
-        node.element_id_ = j["element_id"];
+        auto& node = builder.add_return(parent, data, assignments, json_to_debug_info(j.at("debug_info")));
+        node.element_id_ = j.at("element_id");
     } else {
         auto& node =
-            builder.add_constant_return(parent, data, *data_type, assignments, json_to_debug_info(j["debug_info"]));
-        node.element_id_ = j["element_id"];
+            builder.add_constant_return(parent, data, *data_type, assignments, json_to_debug_info(j.at("debug_info")));
+        node.element_id_ = j.at("element_id");
     }
 }
 
 std::unique_ptr<types::IType> JSONSerializer::json_to_type(const nlohmann::json& j) {
     if (j.contains("type")) {
-        if (j["type"] == "scalar") {
+        if (j.at("type") == "scalar") {
             // Deserialize scalar type
-            assert(j.contains("primitive_type"));
-            types::PrimitiveType primitive_type = j["primitive_type"];
-            assert(j.contains("storage_type"));
-            types::StorageType storage_type = json_to_storage_type(j["storage_type"]);
-            assert(j.contains("initializer"));
-            std::string initializer = j["initializer"];
-            assert(j.contains("alignment"));
-            size_t alignment = j["alignment"];
+            REQUIRE_JSON(j.contains("primitive_type"));
+            types::PrimitiveType primitive_type = j.at("primitive_type");
+            REQUIRE_JSON(j.contains("storage_type"));
+            types::StorageType storage_type = json_to_storage_type(j.at("storage_type"));
+            REQUIRE_JSON(j.contains("initializer"));
+            std::string initializer = j.at("initializer");
+            REQUIRE_JSON(j.contains("alignment"));
+            size_t alignment = j.at("alignment");
             return std::make_unique<types::Scalar>(storage_type, alignment, initializer, primitive_type);
-        } else if (j["type"] == "array") {
+        } else if (j.at("type") == "array") {
             // Deserialize array type
-            assert(j.contains("element_type"));
-            std::unique_ptr<types::IType> member_type = json_to_type(j["element_type"]);
-            assert(j.contains("num_elements"));
-            std::string num_elements_str = j["num_elements"];
+            REQUIRE_JSON(j.contains("element_type"));
+            std::unique_ptr<types::IType> member_type = json_to_type(j.at("element_type"));
+            REQUIRE_JSON(j.contains("num_elements"));
+            std::string num_elements_str = j.at("num_elements");
             // Convert num_elements_str to symbolic::Expression
             auto num_elements = symbolic::parse(num_elements_str);
-            assert(j.contains("storage_type"));
-            types::StorageType storage_type = json_to_storage_type(j["storage_type"]);
-            assert(j.contains("initializer"));
-            std::string initializer = j["initializer"];
-            assert(j.contains("alignment"));
-            size_t alignment = j["alignment"];
+            REQUIRE_JSON(j.contains("storage_type"));
+            types::StorageType storage_type = json_to_storage_type(j.at("storage_type"));
+            REQUIRE_JSON(j.contains("initializer"));
+            std::string initializer = j.at("initializer");
+            REQUIRE_JSON(j.contains("alignment"));
+            size_t alignment = j.at("alignment");
             return std::make_unique<types::Array>(storage_type, alignment, initializer, *member_type, num_elements);
-        } else if (j["type"] == "pointer") {
+        } else if (j.at("type") == "pointer") {
             // Deserialize pointer type
             std::optional<std::unique_ptr<types::IType>> pointee_type;
             if (j.contains("pointee_type")) {
-                assert(j.contains("pointee_type"));
-                pointee_type = json_to_type(j["pointee_type"]);
+                REQUIRE_JSON(j.contains("pointee_type"));
+                pointee_type = json_to_type(j.at("pointee_type"));
             } else {
                 pointee_type = std::nullopt;
             }
-            assert(j.contains("storage_type"));
-            types::StorageType storage_type = json_to_storage_type(j["storage_type"]);
-            assert(j.contains("initializer"));
-            std::string initializer = j["initializer"];
-            assert(j.contains("alignment"));
-            size_t alignment = j["alignment"];
+            REQUIRE_JSON(j.contains("storage_type"));
+            types::StorageType storage_type = json_to_storage_type(j.at("storage_type"));
+            REQUIRE_JSON(j.contains("initializer"));
+            std::string initializer = j.at("initializer");
+            REQUIRE_JSON(j.contains("alignment"));
+            size_t alignment = j.at("alignment");
             if (pointee_type.has_value()) {
                 return std::make_unique<types::Pointer>(storage_type, alignment, initializer, *pointee_type.value());
             } else {
                 return std::make_unique<types::Pointer>(storage_type, alignment, initializer);
             }
-        } else if (j["type"] == "structure") {
+        } else if (j.at("type") == "structure") {
             // Deserialize structure type
-            assert(j.contains("name"));
-            std::string name = j["name"];
-            assert(j.contains("storage_type"));
-            types::StorageType storage_type = json_to_storage_type(j["storage_type"]);
-            assert(j.contains("initializer"));
-            std::string initializer = j["initializer"];
-            assert(j.contains("alignment"));
-            size_t alignment = j["alignment"];
+            REQUIRE_JSON(j.contains("name"));
+            std::string name = j.at("name");
+            REQUIRE_JSON(j.contains("storage_type"));
+            types::StorageType storage_type = json_to_storage_type(j.at("storage_type"));
+            REQUIRE_JSON(j.contains("initializer"));
+            std::string initializer = j.at("initializer");
+            REQUIRE_JSON(j.contains("alignment"));
+            size_t alignment = j.at("alignment");
             return std::make_unique<types::Structure>(storage_type, alignment, initializer, name);
-        } else if (j["type"] == "function") {
+        } else if (j.at("type") == "function") {
             // Deserialize function type
-            assert(j.contains("return_type"));
-            std::unique_ptr<types::IType> return_type = json_to_type(j["return_type"]);
-            assert(j.contains("params"));
+            REQUIRE_JSON(j.contains("return_type"));
+            std::unique_ptr<types::IType> return_type = json_to_type(j.at("return_type"));
+            REQUIRE_JSON(j.contains("params"));
             std::vector<std::unique_ptr<types::IType>> params;
-            for (const auto& param : j["params"]) {
+            for (const auto& param : j.at("params")) {
                 params.push_back(json_to_type(param));
             }
-            assert(j.contains("is_var_arg"));
-            bool is_var_arg = j["is_var_arg"];
-            assert(j.contains("storage_type"));
-            types::StorageType storage_type = json_to_storage_type(j["storage_type"]);
-            assert(j.contains("initializer"));
-            std::string initializer = j["initializer"];
-            assert(j.contains("alignment"));
-            size_t alignment = j["alignment"];
+            REQUIRE_JSON(j.contains("is_var_arg"));
+            bool is_var_arg = j.at("is_var_arg");
+            REQUIRE_JSON(j.contains("storage_type"));
+            types::StorageType storage_type = json_to_storage_type(j.at("storage_type"));
+            REQUIRE_JSON(j.contains("initializer"));
+            std::string initializer = j.at("initializer");
+            REQUIRE_JSON(j.contains("alignment"));
+            size_t alignment = j.at("alignment");
             auto function =
                 std::make_unique<types::Function>(storage_type, alignment, initializer, *return_type, is_var_arg);
             for (const auto& param : params) {
                 function->add_param(*param);
             }
             return function->clone();
-        } else if (j["type"] == "reference") {
+        } else if (j.at("type") == "reference") {
             // Deserialize reference type
-            assert(j.contains("reference_type"));
-            std::unique_ptr<types::IType> reference_type = json_to_type(j["reference_type"]);
+            REQUIRE_JSON(j.contains("reference_type"));
+            std::unique_ptr<types::IType> reference_type = json_to_type(j.at("reference_type"));
             return std::make_unique<sdfg::codegen::Reference>(*reference_type);
-        } else if (j["type"] == "tensor") {
+        } else if (j.at("type") == "tensor") {
             // Deserialize tensor type
-            assert(j.contains("element_type"));
-            std::unique_ptr<types::IType> element_type = json_to_type(j["element_type"]);
-            assert(j.contains("shape"));
+            REQUIRE_JSON(j.contains("element_type"));
+            std::unique_ptr<types::IType> element_type = json_to_type(j.at("element_type"));
+            REQUIRE_JSON(j.contains("shape"));
             std::vector<symbolic::Expression> shape;
-            for (const auto& dim : j["shape"]) {
-                assert(dim.is_string());
+            for (const auto& dim : j.at("shape")) {
+                REQUIRE_JSON(dim.is_string());
                 std::string dim_str = dim;
                 auto expr = symbolic::parse(dim_str);
                 shape.push_back(expr);
             }
-            assert(j.contains("strides"));
+            REQUIRE_JSON(j.contains("strides"));
             std::vector<symbolic::Expression> strides;
-            for (const auto& stride : j["strides"]) {
-                assert(stride.is_string());
+            for (const auto& stride : j.at("strides")) {
+                REQUIRE_JSON(stride.is_string());
                 std::string stride_str = stride;
                 auto expr = symbolic::parse(stride_str);
                 strides.push_back(expr);
             }
-            assert(j.contains("offset"));
-            symbolic::Expression offset = symbolic::parse(j["offset"].get<std::string>());
-            assert(j.contains("storage_type"));
-            types::StorageType storage_type = json_to_storage_type(j["storage_type"]);
-            assert(j.contains("initializer"));
-            std::string initializer = j["initializer"];
-            assert(j.contains("alignment"));
-            size_t alignment = j["alignment"];
+            REQUIRE_JSON(j.contains("offset"));
+            symbolic::Expression offset = symbolic::parse(j.at("offset").get<std::string>());
+            REQUIRE_JSON(j.contains("storage_type"));
+            types::StorageType storage_type = json_to_storage_type(j.at("storage_type"));
+            REQUIRE_JSON(j.contains("initializer"));
+            std::string initializer = j.at("initializer");
+            REQUIRE_JSON(j.contains("alignment"));
+            size_t alignment = j.at("alignment");
             return std::make_unique<types::Tensor>(
                 storage_type, alignment, initializer, dynamic_cast<types::Scalar&>(*element_type), shape, strides, offset
             );
@@ -1103,46 +1112,46 @@ std::unique_ptr<types::IType> JSONSerializer::json_to_type(const nlohmann::json&
 }
 
 DebugInfo JSONSerializer::json_to_debug_info(const nlohmann::json& j) {
-    assert(j.contains("has"));
-    assert(j["has"].is_boolean());
-    if (!j["has"]) {
+    REQUIRE_JSON(j.contains("has"));
+    REQUIRE_JSON(j.at("has").is_boolean());
+    if (!j.at("has")) {
         return DebugInfo();
     }
-    assert(j.contains("filename"));
-    assert(j["filename"].is_string());
-    std::string filename = j["filename"];
-    assert(j.contains("function"));
-    assert(j["function"].is_string());
-    std::string function = j["function"];
-    assert(j.contains("start_line"));
-    assert(j["start_line"].is_number_integer());
-    size_t start_line = j["start_line"];
-    assert(j.contains("start_column"));
-    assert(j["start_column"].is_number_integer());
-    size_t start_column = j["start_column"];
-    assert(j.contains("end_line"));
-    assert(j["end_line"].is_number_integer());
-    size_t end_line = j["end_line"];
-    assert(j.contains("end_column"));
-    assert(j["end_column"].is_number_integer());
-    size_t end_column = j["end_column"];
+    REQUIRE_JSON(j.contains("filename"));
+    REQUIRE_JSON(j.at("filename").is_string());
+    std::string filename = j.at("filename");
+    REQUIRE_JSON(j.contains("function"));
+    REQUIRE_JSON(j.at("function").is_string());
+    std::string function = j.at("function");
+    REQUIRE_JSON(j.contains("start_line"));
+    REQUIRE_JSON(j.at("start_line").is_number_integer());
+    size_t start_line = j.at("start_line");
+    REQUIRE_JSON(j.contains("start_column"));
+    REQUIRE_JSON(j.at("start_column").is_number_integer());
+    size_t start_column = j.at("start_column");
+    REQUIRE_JSON(j.contains("end_line"));
+    REQUIRE_JSON(j.at("end_line").is_number_integer());
+    size_t end_line = j.at("end_line");
+    REQUIRE_JSON(j.contains("end_column"));
+    REQUIRE_JSON(j.at("end_column").is_number_integer());
+    size_t end_column = j.at("end_column");
     return DebugInfo(filename, function, start_line, start_column, end_line, end_column);
 }
 
 ScheduleType JSONSerializer::json_to_schedule_type(const nlohmann::json& j) {
-    assert(j.contains("value"));
-    assert(j["value"].is_string());
+    REQUIRE_JSON(j.contains("value"));
+    REQUIRE_JSON(j.at("value").is_string());
     // assert(j.contains("category"));
-    // assert(j["category"].is_number_integer());
-    assert(j.contains("properties"));
-    assert(j["properties"].is_object());
+    // assert(j.at("category").is_number_integer());
+    REQUIRE_JSON(j.contains("properties"));
+    REQUIRE_JSON(j.at("properties").is_object());
     ScheduleTypeCategory category = ScheduleTypeCategory::None;
     if (j.contains("category")) {
-        category = static_cast<ScheduleTypeCategory>(j["category"].get<int>());
+        category = static_cast<ScheduleTypeCategory>(j.at("category").get<int>());
     }
-    ScheduleType schedule_type(j["value"].get<std::string>(), category);
-    for (const auto& [key, value] : j["properties"].items()) {
-        assert(value.is_string());
+    ScheduleType schedule_type(j.at("value").get<std::string>(), category);
+    for (const auto& [key, value] : j.at("properties").items()) {
+        REQUIRE_JSON(value.is_string());
         schedule_type.set_property(key, value.get<std::string>());
     }
     return schedule_type;
@@ -1152,20 +1161,20 @@ types::StorageType JSONSerializer::json_to_storage_type(const nlohmann::json& j)
     if (!j.contains("value")) {
         return types::StorageType::CPU_Stack();
     }
-    std::string value = j["value"].get<std::string>();
+    std::string value = j.at("value").get<std::string>();
 
     symbolic::Expression allocation_size = SymEngine::null;
     if (j.contains("allocation_size")) {
-        allocation_size = symbolic::parse(j["allocation_size"].get<std::string>());
+        allocation_size = symbolic::parse(j.at("allocation_size").get<std::string>());
     }
 
-    types::StorageType::AllocationType allocation = j["allocation"];
-    types::StorageType::AllocationType deallocation = j["deallocation"];
+    types::StorageType::AllocationType allocation = j.at("allocation");
+    types::StorageType::AllocationType deallocation = j.at("deallocation");
 
-    auto storageType = types::StorageType(j["value"].get<std::string>(), allocation_size, allocation, deallocation);
+    auto storageType = types::StorageType(j.at("value").get<std::string>(), allocation_size, allocation, deallocation);
 
     if (j.contains("args")) {
-        nlohmann::json::array_t args = j["args"];
+        nlohmann::json::array_t args = j.at("args");
         if (args.size() > 0) {
             storageType.arg1(symbolic::parse(args[0].get<std::string>()));
         }
-- 
2.43.0


From 2a237c4c402c88d51fee4506d044e9d1c1f98461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:45 +0000
Subject: [PATCH 27/52] fix: an optimised loop nest from the tuning service is
 taken over incompletely

Only the first statement of the received SDFG replaced the loop nest and the
others were lost; containers it introduced were merged with unrelated containers
of the program of the same name; element ids were handed out again; an empty
SDFG deleted the loop nest before it was found to be unusable; and the response
of an earlier query was applied when a later one had failed.
---
 .../sdfg/transformations/rpc_node_transform.h |  4 ++
 .../transformations/rpc_node_transform.cpp    | 55 ++++++++++++++-----
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/rpc/include/sdfg/transformations/rpc_node_transform.h b/rpc/include/sdfg/transformations/rpc_node_transform.h
index a6c9e0a..0045781 100644
--- a/rpc/include/sdfg/transformations/rpc_node_transform.h
+++ b/rpc/include/sdfg/transformations/rpc_node_transform.h
@@ -3,6 +3,7 @@
 #include <nlohmann/json.hpp>
 #include <nlohmann/json_fwd.hpp>
 #include <string>
+#include <unordered_set>
 #include <variant>
 #include "sdfg/analysis/users.h"
 #include "sdfg/passes/rpc/rpc_responses.h"
@@ -29,6 +30,9 @@ private:
 
     std::unique_ptr<passes::rpc::RpcOptResponse> opt_resp_;
 
+    // Containers known to the server
+    std::unordered_set<std::string> cutout_containers_;
+
     bool dump_steps_;
 
     std::string get_node_id_str() const;
diff --git a/rpc/src/transformations/rpc_node_transform.cpp b/rpc/src/transformations/rpc_node_transform.cpp
index 6e46c0d..379cbb4 100644
--- a/rpc/src/transformations/rpc_node_transform.cpp
+++ b/rpc/src/transformations/rpc_node_transform.cpp
@@ -1,12 +1,14 @@
 #include "sdfg/transformations/rpc_node_transform.h"
 
 #include <curl/curl.h>
+#include <algorithm>
 #include <iostream>
 #include <memory>
 #include <nlohmann/json.hpp>
 #include <nlohmann/json_fwd.hpp>
 #include <string>
 #include <variant>
+#include <vector>
 
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
@@ -57,8 +59,15 @@ bool RPCNodeTransform::
         return false;
     }
 
+    // Forget the response to an earlier query
+    this->opt_resp_.reset();
+
     // Create cutout SDFG
     std::unique_ptr<sdfg::StructuredSDFG> loop_sdfg = util::cutout(builder, analysis_manager, this->node_);
+    this->cutout_containers_.clear();
+    for (auto& container : loop_sdfg->containers()) {
+        this->cutout_containers_.insert(container);
+    }
 
     // Loop info is only used for information on the loop structure
     auto opt_resp = query_rpc_server(
@@ -82,7 +91,7 @@ bool RPCNodeTransform::
             std::string error_msg;
             if (std::holds_alternative<std::string>(opt_resp)) {
                 error_msg = std::get<std::string>(opt_resp);
-            } else if (this->opt_resp_->error.has_value()) {
+            } else if (this->opt_resp_ != nullptr && this->opt_resp_->error.has_value()) {
                 error_msg = this->opt_resp_->error.value();
             }
             report_->transform_impossible(
@@ -166,6 +175,10 @@ std::variant<std::unique_ptr<passes::rpc::RpcOptResponse>, std::string> RPCNodeT
             passes::rpc::RpcSdfgResult result;
             sdfg::serializer::JSONSerializer serializer;
             result.sdfg = serializer.deserialize(sdfg_field);
+            result.sdfg->validate();
+            if (result.sdfg->root().size() == 0) {
+                throw std::runtime_error("Received SDFG is empty");
+            }
             rpc_response->sdfg_result = std::move(result);
         }
 
@@ -219,24 +232,33 @@ void RPCNodeTransform::
 
         auto& sdfg_response = opt.sdfg_result->sdfg;
 
-        // TODO: add transitions from after loop to tmp_scope
-
-        builder.remove_child(*parent_scope, index); // remove old loop
-        builder.move_child(opt.sdfg_result->sdfg->root(), 0, *parent_scope, index); // move optimized loop into place
-
-        for (auto& container : sdfg_response->containers()) {
-            if (builder.subject().exists(container)) {
+        // Containers introduced by the response must not be mistaken for containers of this SDFG
+        builder::StructuredSDFGBuilder response_builder(*sdfg_response);
+        auto response_containers = sdfg_response->containers();
+        std::vector<std::string> containers(response_containers.begin(), response_containers.end());
+        for (auto& container : containers) {
+            if (this->cutout_containers_.contains(container)) {
                 continue;
             }
-            auto& type = sdfg_response->type(container);
-            builder.add_container(
-                container,
-                type,
-                false,
-                false
-            );
+            std::string name = container;
+            if (builder.subject().exists(container)) {
+                size_t i = 0;
+                do {
+                    name = container + "_" + std::to_string(i++);
+                } while (builder.subject().exists(name) || sdfg_response->exists(name));
+                response_builder.rename_container(container, name);
+            }
+            builder.add_container(name, sdfg_response->type(name), false, false);
         }
 
+        // Elements of the response keep their ids
+        builder.set_element_counter(std::max(builder.subject().element_counter(), sdfg_response->element_counter()));
+
+        // TODO: add transitions from after loop to tmp_scope
+
+        builder.remove_child(*parent_scope, index); // remove old loop
+        builder.move_children(sdfg_response->root(), *parent_scope, index); // move optimized loop into place
+
         opt.sdfg_result->sdfg.reset();
     } else if (opt.local_replay.has_value()) {
         try {
@@ -291,6 +313,9 @@ void RPCNodeTransform::print_transformation_sequence(const nlohmann::json& seque
         for (auto& desc : sequence) {
             bool fail = false;
             auto transformation_type = desc.find("transformation_type");
+            if (transformation_type == desc.end() || !transformation_type->is_string()) {
+                continue;
+            }
             std::cout << "\t" << transformation_type->get<std::string>();
             auto transformation_parameter = desc.find("parameters");
             if (transformation_parameter != desc.end()) {
-- 
2.43.0


From d31c7b7c37b3fae3ee2c6ceca64d154558b208d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:45 +0000
Subject: [PATCH 28/52] fix: loops with incompatible schedules are passed to
 schedulers

The filter shortened the queue while counting up to its length and so did not
look at the last loops.
---
 opt/src/passes/scheduler/loop_scheduling_pass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt/src/passes/scheduler/loop_scheduling_pass.cpp b/opt/src/passes/scheduler/loop_scheduling_pass.cpp
index 196cff1..e5ae67c 100644
--- a/opt/src/passes/scheduler/loop_scheduling_pass.cpp
+++ b/opt/src/passes/scheduler/loop_scheduling_pass.cpp
@@ -37,7 +37,8 @@ bool LoopSchedulingPass::run_pass_target(
     scheduler->set_report(report_);
 
     // filter by compatible types, ensure that a scheduler does not encounter maps with incompatible schedule types
-    for (int i = 0; i < queue.size(); i++) {
+    size_t num_loops = queue.size();
+    for (size_t i = 0; i < num_loops; i++) {
         auto loop = queue.front();
         queue.pop_front();
 
-- 
2.43.0


From 79666ae15c692cab712265cadb9acc58ef5d7967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 29/52] fix: report generated sources that could not be written
 completely

---
 opt/src/targets/offloading/utils.cpp                       | 3 +++
 python/bindings/py_structured_sdfg.cpp                     | 7 ++++++-
 .../code_generators/c_style_base_code_generator.cpp        | 3 ++-
 sdfg/src/codegen/code_generators/cuda_code_generator.cpp   | 3 ++-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/opt/src/targets/offloading/utils.cpp b/opt/src/targets/offloading/utils.cpp
index 5ef092d..6b76312 100644
--- a/opt/src/targets/offloading/utils.cpp
+++ b/opt/src/targets/offloading/utils.cpp
@@ -24,6 +24,9 @@ bool write_library_snippets_to_files(
             }
             outfile_lib << snippet.stream().str() << std::endl;
             outfile_lib.close();
+            if (outfile_lib.fail()) {
+                throw std::runtime_error("Failed to write library file: " + p.string());
+            }
 
             if (snippet.extension() == file_ending) {
                 auto it = files_for_post_processing.find(file_ending);
diff --git a/python/bindings/py_structured_sdfg.cpp b/python/bindings/py_structured_sdfg.cpp
index e48e93c..66e065c 100644
--- a/python/bindings/py_structured_sdfg.cpp
+++ b/python/bindings/py_structured_sdfg.cpp
@@ -397,7 +397,9 @@ std::string PyStructuredSDFG::compile(
         generator(*sdfg_, analysis_manager, *instrumentation_plan, *arg_capture_plan, snippet_factory);
     generator.generate();
 
-    generator.as_source(header_path, source_path);
+    if (!generator.as_source(header_path, source_path)) {
+        throw std::runtime_error("Failed to write source files: " + header_path.string() + ", " + source_path.string());
+    }
 
     // Write library snippets
     std::unordered_map<std::string, SnippetMetadata> lib_files;
@@ -416,6 +418,9 @@ std::string PyStructuredSDFG::compile(
             }
             outfile_lib << snippet.stream().str() << std::endl;
             outfile_lib.close();
+            if (outfile_lib.fail()) {
+                throw std::runtime_error("Failed to write library file: " + p.string());
+            }
         }
     }
 
diff --git a/sdfg/src/codegen/code_generators/c_style_base_code_generator.cpp b/sdfg/src/codegen/code_generators/c_style_base_code_generator.cpp
index bd8b1d1..200ff36 100644
--- a/sdfg/src/codegen/code_generators/c_style_base_code_generator.cpp
+++ b/sdfg/src/codegen/code_generators/c_style_base_code_generator.cpp
@@ -57,7 +57,8 @@ bool CStyleBaseCodeGenerator::as_source(const std::filesystem::path& header_path
 
     ofs_source.close();
 
-    return true;
+    // a full disk or an I/O error may show only when the buffers are written out
+    return !ofs_header.fail() && !ofs_source.fail();
 }
 
 void CStyleBaseCodeGenerator::append_function_source(std::ofstream& ofs_source) {
diff --git a/sdfg/src/codegen/code_generators/cuda_code_generator.cpp b/sdfg/src/codegen/code_generators/cuda_code_generator.cpp
index a0b88e4..6a30e10 100644
--- a/sdfg/src/codegen/code_generators/cuda_code_generator.cpp
+++ b/sdfg/src/codegen/code_generators/cuda_code_generator.cpp
@@ -68,7 +68,8 @@ bool CUDACodeGenerator::as_source(const std::filesystem::path& header_path, cons
 
     ofs_source.close();
 
-    return true;
+    // a full disk or an I/O error may show only when the buffers are written out
+    return !ofs_header.fail() && !ofs_source.fail();
 };
 
 void CUDACodeGenerator::append_function_source(std::ofstream& ofs_source) {
-- 
2.43.0


From d0868ce0ea35a47138a26f2f813f266a43155e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 30/52] fix: report SDFG dumps and recorded transformations
 that could not be written completely

---
 python/bindings/py_structured_sdfg.cpp | 3 +++
 sdfg/src/transformations/recorder.cpp  | 3 +++
 sdfg/src/visualizer/dot_visualizer.cpp | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/python/bindings/py_structured_sdfg.cpp b/python/bindings/py_structured_sdfg.cpp
index 66e065c..f878aaa 100644
--- a/python/bindings/py_structured_sdfg.cpp
+++ b/python/bindings/py_structured_sdfg.cpp
@@ -286,6 +286,9 @@ void PyStructuredSDFG::dump(const std::string& path, const std::string& type) {
     }
     ofs << j.dump(2);
     ofs.close();
+    if (ofs.fail()) {
+        throw std::runtime_error("Failed to write file: " + sdfg_file.string());
+    }
 
     auto dot_file = build_path / (sdfg_->name() + typeSuffix + ".dot");
     sdfg::visualizer::DotVisualizer::writeToFile(*sdfg_, &dot_file);
diff --git a/sdfg/src/transformations/recorder.cpp b/sdfg/src/transformations/recorder.cpp
index de48f2d..fb1b7ab 100644
--- a/sdfg/src/transformations/recorder.cpp
+++ b/sdfg/src/transformations/recorder.cpp
@@ -17,6 +17,9 @@ void Recorder::save(std::filesystem::path path) const {
     }
     file << history_.dump(4); // Pretty print with an indent of 4 spaces
     file.close();
+    if (file.fail()) {
+        throw std::runtime_error("Failed to save transformations: " + path.string());
+    }
 }
 
 } // namespace transformations
diff --git a/sdfg/src/visualizer/dot_visualizer.cpp b/sdfg/src/visualizer/dot_visualizer.cpp
index 24c4b9d..648b894 100644
--- a/sdfg/src/visualizer/dot_visualizer.cpp
+++ b/sdfg/src/visualizer/dot_visualizer.cpp
@@ -295,10 +295,14 @@ void DotVisualizer::writeToFile(const StructuredSDFG& sdfg, const std::filesyste
     std::ofstream dotOutput(fileName, std::ofstream::out);
     if (!dotOutput.is_open()) {
         std::cerr << "Could not open file " << fileName << " for writing DOT output." << std::endl;
+        return;
     }
 
     dotOutput << viz.getStream().str();
     dotOutput.close();
+    if (dotOutput.fail()) {
+        std::cerr << "Could not write DOT output to file " << fileName << "." << std::endl;
+    }
 }
 
 } // namespace visualizer
-- 
2.43.0


From 723d3eb53c53699b2a728e2db694a58ee6d44dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 31/52] fix: compile the generated source with OpenMP, not only
 link it

---
 python/bindings/py_structured_sdfg.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/bindings/py_structured_sdfg.cpp b/python/bindings/py_structured_sdfg.cpp
index f878aaa..cf18438 100644
--- a/python/bindings/py_structured_sdfg.cpp
+++ b/python/bindings/py_structured_sdfg.cpp
@@ -491,6 +491,12 @@ std::string PyStructuredSDFG::compile(
     {
         std::stringstream cmd;
         cmd << DOCC_CXX_COMPILER << " -c -fPIC -O3 -march=native -mtune=native -funroll-loops";
+        // without it, the OpenMP pragmas are ignored and parallel loops run sequentially
+#if defined(__APPLE__)
+        cmd << " -Xpreprocessor -fopenmp -I/opt/homebrew/opt/libomp/include";
+#else
+        cmd << " -fopenmp";
+#endif
         if (!package_path_str.empty()) {
             cmd << " -L" << package_lib_path_str;
             cmd << " -I" << package_include_path_str;
-- 
2.43.0


From a3b061312356ed714049f863fc5d371055e2db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 32/52] fix: do not hand ONNX model descriptions to the C++
 compiler

---
 python/bindings/py_structured_sdfg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/bindings/py_structured_sdfg.cpp b/python/bindings/py_structured_sdfg.cpp
index cf18438..2d97326 100644
--- a/python/bindings/py_structured_sdfg.cpp
+++ b/python/bindings/py_structured_sdfg.cpp
@@ -446,7 +446,7 @@ std::string PyStructuredSDFG::compile(
     for (const auto& [lib_file, meta] : lib_files) {
         std::filesystem::path lib_path(lib_file);
         auto& [snippet_name, extension] = meta;
-        if (extension == "json") {
+        if (extension == "json" || sdfg::helpers::endswith(extension, ".json")) {
             continue;
         }
 
-- 
2.43.0


From d83cb0920213f6fb83c46b394eb7d2eb331cbd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:56 +0000
Subject: [PATCH 33/52] fix: quote file names in compiler command lines

---
 python/bindings/py_structured_sdfg.cpp | 24 ++++++++++++------------
 sdfg/include/sdfg/helpers/helpers.h    | 13 +++++++++++++
 targets/et/src/et/target.cpp           |  6 ++++--
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/python/bindings/py_structured_sdfg.cpp b/python/bindings/py_structured_sdfg.cpp
index 2d97326..c55e20f 100644
--- a/python/bindings/py_structured_sdfg.cpp
+++ b/python/bindings/py_structured_sdfg.cpp
@@ -463,8 +463,8 @@ std::string PyStructuredSDFG::compile(
         std::stringstream cmd;
         cmd << DOCC_CXX_COMPILER << " -c -fPIC -O3  -march=native -mtune=native -funroll-loops";
         if (!package_path_str.empty()) {
-            cmd << " -L" << package_lib_path_str;
-            cmd << " -I" << package_include_path_str;
+            cmd << " -L" << sdfg::helpers::shell_quote(package_lib_path_str);
+            cmd << " -I" << sdfg::helpers::shell_quote(package_include_path_str);
         }
 #if defined(__APPLE__)
         cmd << " -I/opt/homebrew/include";
@@ -473,8 +473,8 @@ std::string PyStructuredSDFG::compile(
             cmd << " -x cuda --cuda-gpu-arch=sm_70 --cuda-path=/usr/local/cuda";
         }
 
-        cmd << " " << lib_file;
-        cmd << " -o " << object_file;
+        cmd << " " << sdfg::helpers::shell_quote(lib_file);
+        cmd << " -o " << sdfg::helpers::shell_quote(object_file);
         if (name.starts_with("highway_")) {
             cmd << " -lhwy";
             has_highway = true;
@@ -498,8 +498,8 @@ std::string PyStructuredSDFG::compile(
         cmd << " -fopenmp";
 #endif
         if (!package_path_str.empty()) {
-            cmd << " -L" << package_lib_path_str;
-            cmd << " -I" << package_include_path_str;
+            cmd << " -L" << sdfg::helpers::shell_quote(package_lib_path_str);
+            cmd << " -I" << sdfg::helpers::shell_quote(package_include_path_str);
         }
         if (target == "cuda") {
             cmd << " -x cuda -lcuda";
@@ -508,8 +508,8 @@ std::string PyStructuredSDFG::compile(
             cmd << " " << docc::target::et::et_get_host_additional_compile_args(*sdfg_, *snippet_factory);
 #endif
         }
-        cmd << " " << source_path.string();
-        cmd << " -o " << (build_path / (sdfg_->name() + ".o")).string();
+        cmd << " " << sdfg::helpers::shell_quote(source_path.string());
+        cmd << " -o " << sdfg::helpers::shell_quote((build_path / (sdfg_->name() + ".o")).string());
         DEBUG_PRINTLN("Compile: " << cmd.str());
         int ret = std::system(cmd.str().c_str());
         if (ret != 0) {
@@ -530,12 +530,12 @@ std::string PyStructuredSDFG::compile(
     cmd << DOCC_CXX_COMPILER << " -shared -fopenmp -fPIC -O3";
 #endif
     if (!package_path_str.empty()) {
-        cmd << " -L" << package_lib_path_str;
-        cmd << " -I" << package_include_path_str;
+        cmd << " -L" << sdfg::helpers::shell_quote(package_lib_path_str);
+        cmd << " -I" << sdfg::helpers::shell_quote(package_include_path_str);
     }
     // cmd << " " << source_path.string();
     for (const auto& object_file : object_files) {
-        cmd << " " << object_file;
+        cmd << " " << sdfg::helpers::shell_quote(object_file);
     }
     if (has_highway) {
         cmd << " -lhwy";
@@ -562,7 +562,7 @@ std::string PyStructuredSDFG::compile(
         cmd << " " << docc::target::et::et_get_host_additional_link_args(*sdfg_, *snippet_factory);
 #endif
     }
-    cmd << " -o " << lib_path.string();
+    cmd << " -o " << sdfg::helpers::shell_quote(lib_path.string());
 
     DEBUG_PRINTLN("Link: " << cmd.str());
     int ret = std::system(cmd.str().c_str());
diff --git a/sdfg/include/sdfg/helpers/helpers.h b/sdfg/include/sdfg/helpers/helpers.h
index 1eb536b..c7bc46e 100644
--- a/sdfg/include/sdfg/helpers/helpers.h
+++ b/sdfg/include/sdfg/helpers/helpers.h
@@ -68,6 +68,19 @@ inline int64_t parse_number_signed(const std::string& s) {
     return std::stoll(s);
 };
 
+/// @brief The text as a single word of a POSIX shell command line
+inline std::string shell_quote(const std::string& s) {
+    std::string quoted = "'";
+    for (char c : s) {
+        if (c == '\'') {
+            quoted += "'\\''";
+        } else {
+            quoted += c;
+        }
+    }
+    return quoted + "'";
+};
+
 inline bool endswith(std::string const& value, std::string const& ending) {
     if (ending.size() > value.size()) return false;
     return std::equal(ending.rbegin(), ending.rend(), value.rbegin());
diff --git a/targets/et/src/et/target.cpp b/targets/et/src/et/target.cpp
index 813a773..b128d70 100644
--- a/targets/et/src/et/target.cpp
+++ b/targets/et/src/et/target.cpp
@@ -82,8 +82,10 @@ std::filesystem::path et_build_kernel(
     cmd << " -isystem " << (ET_INSTALL_PATH / "cm-umode/include") << " -isystem "
         << (ET_INSTALL_PATH / "include/esperanto");
     cmd << " -O3 -DNDEBUG -flto=auto -fno-fat-lto-objects -nostdlib -nostartfiles -Wl,--gc-sections -T "
-        << (paths.plugin_rt_dir / "libexec/docc/et/sections.ld");
-    cmd << " " << kernel_src << " " << (paths.plugin_rt_dir / "libexec/docc/et/crt.S") << " -o " << bin_file;
+        << helpers::shell_quote((paths.plugin_rt_dir / "libexec/docc/et/sections.ld").string());
+    cmd << " " << helpers::shell_quote(kernel_src.string()) << " "
+        << helpers::shell_quote((paths.plugin_rt_dir / "libexec/docc/et/crt.S").string()) << " -o "
+        << helpers::shell_quote(bin_file.string());
     cmd << " -lc -lm -lgcc " << (ET_INSTALL_PATH / "cm-umode/lib/libcm-umode.a");
 
     int ret = std::system(cmd.str().c_str());
-- 
2.43.0


From c88d89735f8364059f11b629fdfec17fb6c7c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:41 +0000
Subject: [PATCH 34/52] fix: escape file names in string literals of the
 generated code

---
 sdfg/include/sdfg/helpers/helpers.h           | 21 +++++++++++++++++++
 .../code_generators/c_code_generator.cpp      |  5 +++--
 .../code_generators/cpp_code_generator.cpp    |  5 +++--
 .../instrumentation/instrumentation_plan.cpp  | 13 ++++++------
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/sdfg/include/sdfg/helpers/helpers.h b/sdfg/include/sdfg/helpers/helpers.h
index c7bc46e..58961f3 100644
--- a/sdfg/include/sdfg/helpers/helpers.h
+++ b/sdfg/include/sdfg/helpers/helpers.h
@@ -68,6 +68,27 @@ inline int64_t parse_number_signed(const std::string& s) {
     return std::stoll(s);
 };
 
+/// @brief The text as a C string literal, quotes included
+inline std::string string_literal(const std::string& s) {
+    static const char* digits = "01234567";
+    std::string literal = "\"";
+    for (char c : s) {
+        auto u = static_cast<unsigned char>(c);
+        if (c == '"' || c == '\\') {
+            literal += '\\';
+            literal += c;
+        } else if (u < 0x20 || u == 0x7f) {
+            literal += '\\';
+            literal += digits[u >> 6];
+            literal += digits[(u >> 3) & 7];
+            literal += digits[u & 7];
+        } else {
+            literal += c;
+        }
+    }
+    return literal + "\"";
+};
+
 /// @brief The text as a single word of a POSIX shell command line
 inline std::string shell_quote(const std::string& s) {
     std::string quoted = "'";
diff --git a/sdfg/src/codegen/code_generators/c_code_generator.cpp b/sdfg/src/codegen/code_generators/c_code_generator.cpp
index f03516c..9a1617c 100644
--- a/sdfg/src/codegen/code_generators/c_code_generator.cpp
+++ b/sdfg/src/codegen/code_generators/c_code_generator.cpp
@@ -1,6 +1,7 @@
 #include "sdfg/codegen/code_generators/c_code_generator.h"
 
 #include "sdfg/codegen/dispatchers/node_dispatcher_registry.h"
+#include "sdfg/helpers/helpers.h"
 
 namespace sdfg {
 namespace codegen {
@@ -29,8 +30,8 @@ void CCodeGenerator::emit_capture_context_init(std::ostream& ofs_source) const {
 
     ofs_source << "static void* __capture_ctx;" << std::endl;
     ofs_source << "static void __attribute__((constructor(1000))) __capture_ctx_init(void) {" << std::endl;
-    ofs_source << "\t__capture_ctx = __daisy_capture_init(\"" << name << "\", \"" << arg_capture_path << "\");"
-               << std::endl;
+    ofs_source << "\t__capture_ctx = __daisy_capture_init(\"" << name << "\", "
+               << helpers::string_literal(arg_capture_path) << ");" << std::endl;
     ofs_source << "}" << std::endl;
     ofs_source << std::endl;
 }
diff --git a/sdfg/src/codegen/code_generators/cpp_code_generator.cpp b/sdfg/src/codegen/code_generators/cpp_code_generator.cpp
index 041864e..bd44237 100644
--- a/sdfg/src/codegen/code_generators/cpp_code_generator.cpp
+++ b/sdfg/src/codegen/code_generators/cpp_code_generator.cpp
@@ -1,6 +1,7 @@
 #include "sdfg/codegen/code_generators/cpp_code_generator.h"
 
 #include "sdfg/codegen/dispatchers/node_dispatcher_registry.h"
+#include "sdfg/helpers/helpers.h"
 
 namespace sdfg {
 namespace codegen {
@@ -29,8 +30,8 @@ void CPPCodeGenerator::emit_capture_context_init(std::ostream& ofs_source) const
 
     ofs_source << "static __daisy_capture_t* __capture_ctx;" << std::endl;
     ofs_source << "static void __attribute__((constructor(1000))) __capture_ctx_init(void) {" << std::endl;
-    ofs_source << "\t__capture_ctx = __daisy_capture_init(\"" << name << "\", \"" << arg_capture_path << "\");"
-               << std::endl;
+    ofs_source << "\t__capture_ctx = __daisy_capture_init(\"" << name << "\", "
+               << helpers::string_literal(arg_capture_path) << ");" << std::endl;
     ofs_source << "}" << std::endl;
     ofs_source << std::endl;
 }
diff --git a/sdfg/src/codegen/instrumentation/instrumentation_plan.cpp b/sdfg/src/codegen/instrumentation/instrumentation_plan.cpp
index 65cc9e4..4adb49e 100644
--- a/sdfg/src/codegen/instrumentation/instrumentation_plan.cpp
+++ b/sdfg/src/codegen/instrumentation/instrumentation_plan.cpp
@@ -8,6 +8,7 @@
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/codegen/language_extension.h"
 #include "sdfg/element.h"
+#include "sdfg/helpers/helpers.h"
 #include "sdfg/symbolic/symbolic.h"
 
 namespace sdfg {
@@ -65,8 +66,8 @@ void InstrumentationPlan::begin_instrumentation(
 
     // Source metadata
     auto& dbg_info = node.debug_info();
-    stream << metadata_var << ".file_name = \"" << dbg_info.filename() << "\";" << std::endl;
-    stream << metadata_var << ".function_name = \"" << dbg_info.function() << "\";" << std::endl;
+    stream << metadata_var << ".file_name = " << helpers::string_literal(dbg_info.filename()) << ";" << std::endl;
+    stream << metadata_var << ".function_name = " << helpers::string_literal(dbg_info.function()) << ";" << std::endl;
     stream << metadata_var << ".line_begin = " << dbg_info.start_line() << ";" << std::endl;
     stream << metadata_var << ".line_end = " << dbg_info.end_line() << ";" << std::endl;
     stream << metadata_var << ".column_begin = " << dbg_info.start_column() << ";" << std::endl;
@@ -74,10 +75,10 @@ void InstrumentationPlan::begin_instrumentation(
 
     // DOCC Metadata
     stream << metadata_var << ".sdfg_name = \"" << sdfg_name << "\";" << std::endl;
-    stream << metadata_var << ".sdfg_file = \"" << sdfg_file << "\";" << std::endl;
-    stream << metadata_var << ".arg_capture_path = \"" << arg_capture_path << "\";" << std::endl;
-    stream << metadata_var << ".features_file = \"" << features_file << "\";" << std::endl;
-    stream << metadata_var << ".opt_report_file = \"" << opt_report_file << "\";" << std::endl;
+    stream << metadata_var << ".sdfg_file = " << helpers::string_literal(sdfg_file) << ";" << std::endl;
+    stream << metadata_var << ".arg_capture_path = " << helpers::string_literal(arg_capture_path) << ";" << std::endl;
+    stream << metadata_var << ".features_file = " << helpers::string_literal(features_file) << ";" << std::endl;
+    stream << metadata_var << ".opt_report_file = " << helpers::string_literal(opt_report_file) << ";" << std::endl;
 
     // Element metadata
     stream << metadata_var << ".element_id = " << info.element_id() << ";" << std::endl;
-- 
2.43.0


From 43388b171083f1f973efeac36b4963a63c3424f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:35 +0000
Subject: [PATCH 35/52] fix: escape the kernel folder in generated ET code

---
 targets/et/src/et/blas/gemm.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/targets/et/src/et/blas/gemm.cpp b/targets/et/src/et/blas/gemm.cpp
index 1859b46..5952522 100644
--- a/targets/et/src/et/blas/gemm.cpp
+++ b/targets/et/src/et/blas/gemm.cpp
@@ -2,6 +2,8 @@
 
 #include "docc/target/et/target.h"
 
+#include <sdfg/helpers/helpers.h>
+
 namespace docc::target::et::blas {
 
 static const std::string kernel_stream_setup = R"a(
@@ -149,8 +151,9 @@ void GEMMNodeDispatcher_ETSOC_WithTransfers::dispatch(
     auto& kstream = snippet.stream();
     kstream << gemm_s_kernel << std::endl;
 
-    stream << "auto et_k = et.load_kernel_binary_blocking(et_stream, \""
-           << library_snippet_factory.output_path().string() << "\", \"" << kernel_name << "\");" << std::endl;
+    stream << "auto et_k = et.load_kernel_binary_blocking(et_stream, "
+           << helpers::string_literal(library_snippet_factory.output_path().string()) << ", \"" << kernel_name << "\");"
+           << std::endl;
 
     // fill args, transfer input data over
     auto alpha_var = require_param_as_var_equivalent(stream, access_nodes[3], "alpha");
-- 
2.43.0


From 81c49d24992bec145328634139812ce22ef27dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:52 +0000
Subject: [PATCH 36/52] fix: open the ET device and create its runtime only
 once per process

get_instance() created another device layer and runtime on every call, that is
for every offloaded operation, and threw them away again.
---
 targets/et/rt/src/runtime.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/targets/et/rt/src/runtime.cpp b/targets/et/rt/src/runtime.cpp
index b348ffa..7346b04 100644
--- a/targets/et/rt/src/runtime.cpp
+++ b/targets/et/rt/src/runtime.cpp
@@ -52,7 +52,7 @@ static Mode get_mode() {
 #endif
 }
 
-EtRuntimeWrapper& EtRuntimeWrapper::get_instance() {
+static ::rt::RuntimePtr create_runtime() {
     std::shared_ptr<dev::IDeviceLayer> deviceLayer;
 
     const Mode mode = get_mode();
@@ -93,10 +93,12 @@ EtRuntimeWrapper& EtRuntimeWrapper::get_instance() {
         throw std::runtime_error("Invalid mode selected");
     }
 
-    // Create runtime, get device, create stream
-    auto runtime = ::rt::IRuntime::create(deviceLayer);
+    return ::rt::IRuntime::create(deviceLayer);
+}
 
-    static std::unique_ptr<EtRuntimeWrapper> instance_ = std::make_unique<EtRuntimeWrapper>(std::move(runtime));
+EtRuntimeWrapper& EtRuntimeWrapper::get_instance() {
+    // The device can only be opened once, by the first caller
+    static std::unique_ptr<EtRuntimeWrapper> instance_ = std::make_unique<EtRuntimeWrapper>(create_runtime());
     return *instance_;
 }
 
-- 
2.43.0


From 46cc31f815788b1ff21aae0e9cdae72fd8d425c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:53 +0000
Subject: [PATCH 37/52] fix: do not load an ET kernel that could not be read
 completely

---
 targets/et/rt/src/runtime.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/targets/et/rt/src/runtime.cpp b/targets/et/rt/src/runtime.cpp
index 7346b04..a2c3362 100644
--- a/targets/et/rt/src/runtime.cpp
+++ b/targets/et/rt/src/runtime.cpp
@@ -122,9 +122,15 @@ static std::vector<std::byte> readFile(const std::filesystem::path& path) {
     }
     file.seekg(0, std::ios::end);
     auto size = file.tellg();
+    if (size < 0) {
+        throw std::runtime_error("Failed to read file: " + path.string());
+    }
     file.seekg(0, std::ios::beg);
     std::vector<std::byte> content(static_cast<size_t>(size));
     file.read(reinterpret_cast<char*>(content.data()), size);
+    if (!file || file.gcount() != size) {
+        throw std::runtime_error("Failed to read file: " + path.string());
+    }
     return content;
 }
 
-- 
2.43.0


From 058449897250c6980505758380c60ecfbd35f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:17 +0000
Subject: [PATCH 38/52] fix: size of the matrices the ET GEMM transfers

A sum as dimension was multiplied without parentheses, and for a part of a larger
matrix m*ld elements were read and written, past the end of the user's array.
---
 targets/et/src/et/blas/gemm.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/targets/et/src/et/blas/gemm.cpp b/targets/et/src/et/blas/gemm.cpp
index 5952522..30a91d0 100644
--- a/targets/et/src/et/blas/gemm.cpp
+++ b/targets/et/src/et/blas/gemm.cpp
@@ -159,14 +159,16 @@ void GEMMNodeDispatcher_ETSOC_WithTransfers::dispatch(
     auto alpha_var = require_param_as_var_equivalent(stream, access_nodes[3], "alpha");
     auto beta_var = require_param_as_var_equivalent(stream, access_nodes[4], "beta");
 
-    stream << "auto A_size = sizeof(float)*" << language_extension_.expression(gemm_node.m()) << "*"
-           << language_extension_.expression(gemm_node.lda()) << ";" << std::endl;
+    // extent of a matrix in bytes: the last row ends with its last column
+    auto matrix_size = [&](const symbolic::Expression& rows, const symbolic::Expression& cols, const symbolic::Expression& ld) {
+        return "sizeof(float)*(static_cast<size_t>((" + language_extension_.expression(rows) + ") - 1)*(" +
+               language_extension_.expression(ld) + ") + (" + language_extension_.expression(cols) + "))";
+    };
+    stream << "auto A_size = " << matrix_size(gemm_node.m(), gemm_node.k(), gemm_node.lda()) << ";" << std::endl;
     stream << "std::byte* et_A = et_rt.mallocDevice(et_dev, A_size);" << std::endl;
-    stream << "auto B_size = sizeof(float)*" << language_extension_.expression(gemm_node.k()) << "*"
-           << language_extension_.expression(gemm_node.ldb()) << ";" << std::endl;
+    stream << "auto B_size = " << matrix_size(gemm_node.k(), gemm_node.n(), gemm_node.ldb()) << ";" << std::endl;
     stream << "std::byte* et_B = et_rt.mallocDevice(et_dev, B_size);" << std::endl;
-    stream << "auto C_size = sizeof(float)*" << language_extension_.expression(gemm_node.m()) << "*"
-           << language_extension_.expression(gemm_node.ldc()) << ";" << std::endl;
+    stream << "auto C_size = " << matrix_size(gemm_node.m(), gemm_node.n(), gemm_node.ldc()) << ";" << std::endl;
     stream << "std::byte* et_C = et_rt.mallocDevice(et_dev, C_size);" << std::endl;
 
     stream << "et_rt.memcpyHostToDevice(et_stream, reinterpret_cast<std::byte*>(" << access_nodes[0]->data()
-- 
2.43.0


From 0299c89af9a06b81534e2fe2d0894405ca7d7cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:17 +0000
Subject: [PATCH 39/52] fix: return the device memory of the ET GEMM

---
 targets/et/src/et/blas/gemm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/targets/et/src/et/blas/gemm.cpp b/targets/et/src/et/blas/gemm.cpp
index 30a91d0..eb5cb8d 100644
--- a/targets/et/src/et/blas/gemm.cpp
+++ b/targets/et/src/et/blas/gemm.cpp
@@ -36,6 +36,9 @@ static const std::string kernel_launch_template_blocking = R"a(
 )a";
 
 static const std::string kernel_cleanup = R"a(
+        et_rt.freeDevice(et_dev, et_A);
+        et_rt.freeDevice(et_dev, et_B);
+        et_rt.freeDevice(et_dev, et_C);
         et_rt.unloadCode(et_k);
         et_rt.destroyStream(et_stream);
 )a";
-- 
2.43.0


From fa4aa39dc232e16631326ae97ad4aa88e622bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:17 +0000
Subject: [PATCH 40/52] fix: the ET GEMM kernel must not use C when beta is
 zero

---
 targets/et/src/et/blas/gemm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/targets/et/src/et/blas/gemm.cpp b/targets/et/src/et/blas/gemm.cpp
index eb5cb8d..0498f3b 100644
--- a/targets/et/src/et/blas/gemm.cpp
+++ b/targets/et/src/et/blas/gemm.cpp
@@ -84,7 +84,9 @@ int64_t entry_point(const Parameters* const param) {
                 for (int k = 0; k < param->k; ++k) {
                     acc += a_ptr[m * a_line_w + k] * b_ptr[k * b_line_w + n];
                 }
-                c_ptr[m * c_line_w + n] = alpha * acc + beta * c_ptr[m * c_line_w + n];
+                // as in BLAS, C need not be initialized when beta is zero
+                float c_in = beta == 0.0f ? 0.0f : beta * c_ptr[m * c_line_w + n];
+                c_ptr[m * c_line_w + n] = alpha * acc + c_in;
             }
         }
     }
-- 
2.43.0


From 9d4187c3601b79a9f63cab59dac8c1665b22eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:17 +0000
Subject: [PATCH 41/52] fix: constants of the ET GEMM must not hide containers
 called alpha or beta

---
 targets/et/src/et/blas/gemm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/targets/et/src/et/blas/gemm.cpp b/targets/et/src/et/blas/gemm.cpp
index 0498f3b..1196bc0 100644
--- a/targets/et/src/et/blas/gemm.cpp
+++ b/targets/et/src/et/blas/gemm.cpp
@@ -161,8 +161,8 @@ void GEMMNodeDispatcher_ETSOC_WithTransfers::dispatch(
            << std::endl;
 
     // fill args, transfer input data over
-    auto alpha_var = require_param_as_var_equivalent(stream, access_nodes[3], "alpha");
-    auto beta_var = require_param_as_var_equivalent(stream, access_nodes[4], "beta");
+    auto alpha_var = require_param_as_var_equivalent(stream, access_nodes[3], "et_alpha");
+    auto beta_var = require_param_as_var_equivalent(stream, access_nodes[4], "et_beta");
 
     // extent of a matrix in bytes: the last row ends with its last column
     auto matrix_size = [&](const symbolic::Expression& rows, const symbolic::Expression& cols, const symbolic::Expression& ld) {
-- 
2.43.0


From 5a308803db078f2f11ae01baf9bb69289e06c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 42/52] fix: write back only the columns of C after an ET GEMM

When C is a part of a larger matrix, what lies between its columns was overwritten
with its state before the operation, undoing what other threads do there meanwhile.
---
 targets/et/src/et/blas/gemm.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/targets/et/src/et/blas/gemm.cpp b/targets/et/src/et/blas/gemm.cpp
index 1196bc0..306eca7 100644
--- a/targets/et/src/et/blas/gemm.cpp
+++ b/targets/et/src/et/blas/gemm.cpp
@@ -206,8 +206,16 @@ void GEMMNodeDispatcher_ETSOC_WithTransfers::dispatch(
     stream << kernel_launch_template_blocking << std::endl;
 
     // pull out data here
-    stream << "et_rt.memcpyDeviceToHost(et_stream, et_C, reinterpret_cast<std::byte*>(" << access_nodes[2]->data()
-           << "), C_size);" << std::endl;
+    // of a part of a larger matrix only the columns of C, others may be changing what lies between them
+    stream << "size_t C_rows = " << language_extension_.expression(gemm_node.m()) << ";" << std::endl;
+    stream << "size_t C_row_size = sizeof(float)*(" << language_extension_.expression(gemm_node.n()) << ");" << std::endl;
+    stream << "size_t C_row_stride = sizeof(float)*(" << language_extension_.expression(gemm_node.ldc()) << ");"
+           << std::endl;
+    stream << "if (C_row_size == C_row_stride) { C_row_size = C_size; C_rows = 1; }" << std::endl;
+    stream << "for (size_t et_row = 0; et_row < C_rows; ++et_row) {" << std::endl;
+    stream << "    et_rt.memcpyDeviceToHost(et_stream, et_C + et_row*C_row_stride, reinterpret_cast<std::byte*>("
+           << access_nodes[2]->data() << ") + et_row*C_row_stride, C_row_size);" << std::endl;
+    stream << "}" << std::endl;
     stream << "et_rt.waitForStream(et_stream);" << std::endl;
 
 
-- 
2.43.0


From c0117d0e01a8aafc329fff316a89768a5e3e44de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 43/52] fix: externals used by a cutout are not arguments of it
 as well

---
 sdfg/src/cutouts/cutout_serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/cutouts/cutout_serializer.cpp b/sdfg/src/cutouts/cutout_serializer.cpp
index a82fb1d..818b10d 100644
--- a/sdfg/src/cutouts/cutout_serializer.cpp
+++ b/sdfg/src/cutouts/cutout_serializer.cpp
@@ -65,6 +65,10 @@ nlohmann::json CutoutSerializer::serialize(
 
     j["arguments"] = nlohmann::json::array();
     for (const auto& argument : arguments) {
+        // externals of the SDFG stay externals of the cutout
+        if (sdfg.is_external(argument.first)) {
+            continue;
+        }
         j["arguments"].push_back(argument.first);
         j["containers"][argument.first]["storage_type"]["allocation"] = 0;
         j["containers"][argument.first]["storage_type"]["deallocation"] = 0;
-- 
2.43.0


From 6f58d3402d386486a495c1c99f7258822a5fd44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:49 +0000
Subject: [PATCH 44/52] fix: a loop whose counter is read after it is not made
 parallel

For2Map's criterion 'indvar not used after for' looked the counter up among the
containers local to the loop, where it never is. It now looks at the reads the
loop's own definitions of the counter reach.
---
 .../passes/structured_control_flow/for2map.cpp    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index 676961b..d1e4c9c 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -128,8 +128,19 @@ bool For2MapPass::can_be_applied(
     }
 
     // c. indvar not used after for
-    if (locals.find(for_stmt.indvar()->get_name()) != locals.end()) {
-        return false;
+    std::unordered_set<const Element*> loop_elements = {&for_stmt};
+    for (auto& user : body_users.uses(for_stmt.indvar()->get_name())) {
+        loop_elements.insert(user->element());
+    }
+    for (auto& definition : data_dependency_analysis_->definitions(for_stmt.indvar()->get_name())) {
+        if (definition.first->element() != &for_stmt) {
+            continue;
+        }
+        for (auto& read : definition.second) {
+            if (loop_elements.find(read->element()) == loop_elements.end()) {
+                return false;
+            }
+        }
     }
 
     return true;
-- 
2.43.0


From 19940375192efba6ed2e3f1716abc590f2a98a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:24 +0000
Subject: [PATCH 45/52] fix: split array indices are only compared for equal
 strides

delinearize() split A[2*i] into [i] and A[i*M + j] into [i, j] without regard to
the stride and to an offset of the inner index, so that comparing two split
subsets reported A[2*i] and A[i], or A[i*M + j] and A[i*M + j + 1], as disjoint
and loops over them as parallel.
---
 sdfg/include/sdfg/symbolic/utils.h | 10 +++++
 sdfg/src/symbolic/maps.cpp         |  3 +-
 sdfg/src/symbolic/sets.cpp         |  6 +--
 sdfg/src/symbolic/utils.cpp        | 68 ++++++++++++++++++++++++------
 4 files changed, 69 insertions(+), 18 deletions(-)

diff --git a/sdfg/include/sdfg/symbolic/utils.h b/sdfg/include/sdfg/symbolic/utils.h
index fa4f399..39f7089 100644
--- a/sdfg/include/sdfg/symbolic/utils.h
+++ b/sdfg/include/sdfg/symbolic/utils.h
@@ -104,5 +104,15 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
  */
 MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums);
 
+/**
+ * @brief Delinearizes two subsets of the same container for comparing them
+ *
+ * A dimension is only split if it has the same strides in both subsets. Otherwise, equal
+ * indices after splitting would not denote equal elements.
+ */
+std::pair<MultiExpression, MultiExpression> delinearize(
+    const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
+);
+
 } // namespace symbolic
 } // namespace sdfg
diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index cccbccb..c6fddb7 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -93,8 +93,7 @@ bool is_disjoint_isl(
     }
 
     // Transform both expressions into two maps with separate dimensions
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
     if (expr1_delinearized.size() != expr2_delinearized.size()) {
         return false;
     }
diff --git a/sdfg/src/symbolic/sets.cpp b/sdfg/src/symbolic/sets.cpp
index 3b1802f..8f4e26d 100644
--- a/sdfg/src/symbolic/sets.cpp
+++ b/sdfg/src/symbolic/sets.cpp
@@ -17,8 +17,7 @@ bool is_subset(
         return true;
     }
 
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
@@ -73,8 +72,7 @@ bool is_subset(
 bool is_disjoint(
     const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
 ) {
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index f404343..8dc17e3 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -588,7 +588,7 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
     }
 }
 
-MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
+static MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums, MultiExpression& strides) {
     MultiExpression delinearized;
     for (auto& dim : expr) {
         // Check if more than two symbols are involved
@@ -600,6 +600,7 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         }
         if (symbols.size() < 1) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
 
@@ -607,11 +608,13 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         auto poly = polynomial(dim, symbols);
         if (poly == SymEngine::null) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
         auto aff_coeffs = affine_coefficients(poly, symbols);
         if (aff_coeffs.empty()) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
         auto offset = aff_coeffs.at(symbolic::symbol("__daisy_constant__"));
@@ -621,6 +624,7 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         bool success = true;
         Expression remaining = symbolic::sub(dim, offset);
         std::vector<Expression> peeled_dims;
+        std::vector<Expression> peeled_strides;
         while (!aff_coeffs.empty()) {
             // Find the symbol with largest stride (= largest atom count)
             Symbol new_dim = SymEngine::null;
@@ -662,10 +666,16 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
             remaining = symbolic::expand(remaining);
             remaining = symbolic::simplify(remaining);
 
+            // Add offset contribution of peeled dimension
+            auto [q, r] = polynomial_div(offset, stride);
+            offset = r;
+            auto final_dim = symbolic::add(new_dim, q);
+
             // Check if remainder is within bounds
+            auto remainder = symbolic::expand(symbolic::add(remaining, offset));
 
-            // remaining must be nonnegative
-            auto rem_lb = minimum(remaining, {}, assums);
+            // remainder must be nonnegative
+            auto rem_lb = minimum(remainder, {}, assums);
             if (rem_lb.is_null()) {
                 break;
             }
@@ -674,30 +684,30 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
                 break;
             }
 
-            // remaining must be less than stride
-            auto ub_stride = maximum(stride, {}, assums);
-            auto ub_remaining = maximum(remaining, {}, assums);
-            auto cond_stride = symbolic::Ge(ub_stride, ub_remaining);
+            // remainder must be less than stride
+            auto ub_remainder = maximum(remainder, symbolic::atoms(stride), assums);
+            if (ub_remainder.is_null()) {
+                break;
+            }
+            auto cond_stride = symbolic::Ge(symbolic::expand(symbolic::sub(stride, ub_remainder)), symbolic::one());
             if (!symbolic::is_true(cond_stride)) {
                 break;
             }
 
-            // Add offset contribution of peeled dimension
-            auto [q, r] = polynomial_div(offset, stride);
-            offset = r;
-            auto final_dim = symbolic::add(new_dim, q);
-
             peeled_dims.push_back(final_dim);
+            peeled_strides.push_back(stride);
             aff_coeffs.erase(new_dim);
         }
         // Not all dimensions could be peeled off
         if (!aff_coeffs.empty()) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
         // Offset did not reduce to zero
         if (!symbolic::eq(offset, symbolic::zero())) {
             delinearized.push_back(dim);
+            strides.push_back(symbolic::one());
             continue;
         }
 
@@ -705,10 +715,44 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
         for (auto& peeled_dim : peeled_dims) {
             delinearized.push_back(peeled_dim);
         }
+        strides.insert(strides.end(), peeled_strides.begin(), peeled_strides.end());
     }
 
     return delinearized;
 }
 
+MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
+    MultiExpression strides;
+    return delinearize(expr, assums, strides);
+}
+
+std::pair<MultiExpression, MultiExpression> delinearize(
+    const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
+) {
+    if (expr1.size() != expr2.size()) {
+        return {expr1, expr2};
+    }
+
+    std::pair<MultiExpression, MultiExpression> result;
+    for (size_t i = 0; i < expr1.size(); i++) {
+        MultiExpression strides1, strides2;
+        auto dims1 = delinearize({expr1[i]}, assums1, strides1);
+        auto dims2 = delinearize({expr2[i]}, assums2, strides2);
+
+        // Indices are only comparable for equal strides
+        bool comparable = strides1.size() == strides2.size();
+        for (size_t j = 0; j < strides1.size() && comparable; j++) {
+            comparable = symbolic::eq(strides1[j], strides2[j]);
+        }
+        if (!comparable) {
+            dims1 = {expr1[i]};
+            dims2 = {expr2[i]};
+        }
+        result.first.insert(result.first.end(), dims1.begin(), dims1.end());
+        result.second.insert(result.second.end(), dims2.begin(), dims2.end());
+    }
+    return result;
+}
+
 } // namespace symbolic
 } // namespace sdfg
-- 
2.43.0


From 7a477011fb52d58374c433b632f4cc5cc2de18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:24 +0000
Subject: [PATCH 46/52] fix: a read is only defined within an iteration by
 writes that always reach it

The data dependency analysis took a write that may overlap a read, is in a branch
not always executed, in a loop that may have no iterations, or writes other
elements, for the definition of the read, and lost the loop-carried dependency.
---
 .../sdfg/analysis/data_dependency_analysis.h  |  14 +-
 .../src/analysis/data_dependency_analysis.cpp | 409 +++++++-----------
 2 files changed, 157 insertions(+), 266 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index 246a90e..b31b8fd 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -51,9 +51,19 @@ private:
         structured_control_flow::StructuredLoop& loop
     );
 
-    bool supersedes_restrictive(User& previous, User& current, analysis::AnalysisManager& analysis_manager);
+    /// Every element, which the user accesses, is written by the definition, once both are executed
+    bool covers(analysis::AnalysisManager& analysis_manager, User& definition, User& user);
 
-    bool intersects(User& previous, User& current, analysis::AnalysisManager& analysis_manager);
+    /// The definition is in a loop, which ends before the read and may not execute its body
+    bool may_be_skipped(analysis::AnalysisManager& analysis_manager, User& definition, User& read);
+
+    /// Assigns the read to all open definitions it may read from;
+    /// true if the read always reads from one of them
+    bool reaches(
+        analysis::AnalysisManager& analysis_manager,
+        std::unordered_map<User*, std::unordered_set<User*>>& open_definitions,
+        User& read
+    );
 
     bool closes(analysis::AnalysisManager& analysis_manager, User& previous, User& current, bool requires_dominance);
 
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index f77381c..fcff1bb 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -1,5 +1,6 @@
 #include "sdfg/analysis/data_dependency_analysis.h"
 
+#include <algorithm>
 #include <cassert>
 #include <string>
 #include <unordered_map>
@@ -8,6 +9,7 @@
 
 #include "sdfg/analysis/analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
+#include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/structured_sdfg.h"
 #include "sdfg/symbolic/maps.h"
 #include "sdfg/symbolic/sets.h"
@@ -113,17 +115,7 @@ void DataDependencyAnalysis::visit_block(
                         auto current_user = users.get_user(access_node->data(), access_node, use);
 
                         // Assign to open definitions
-                        bool found_user = false;
-                        bool found_undefined_user = false;
-                        for (auto& user : open_definitions) {
-                            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                                user.second.insert(current_user);
-                                found_user = true;
-                                found_undefined_user = this->is_undefined_user(*user.first);
-                            }
-                        }
-                        // If no definition found or undefined user found, mark as undefined
-                        if (!found_user || found_undefined_user) {
+                        if (!this->reaches(analysis_manager, open_definitions, *current_user)) {
                             undefined.insert(current_user);
                         }
                     }
@@ -134,17 +126,7 @@ void DataDependencyAnalysis::visit_block(
                 auto current_user = users.get_user(symbol->get_name(), library_node, Use::READ);
 
                 // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user = this->is_undefined_user(*current_user);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
+                if (!this->reaches(analysis_manager, open_definitions, *current_user)) {
                     undefined.insert(current_user);
                 }
             }
@@ -161,17 +143,7 @@ void DataDependencyAnalysis::visit_block(
                 auto current_user = users.get_user(atom, &oedge, Use::READ);
 
                 // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user = this->is_undefined_user(*user.first);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
+                if (!this->reaches(analysis_manager, open_definitions, *current_user)) {
                     undefined.insert(current_user);
                 }
             }
@@ -193,17 +165,7 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
+        if (!this->reaches(analysis_manager, open_definitions, *current_user)) {
             undefined.insert(current_user);
         }
     }
@@ -240,17 +202,7 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
+        if (!this->reaches(analysis_manager, open_definitions, *current_user)) {
             undefined.insert(current_user);
         }
     }
@@ -267,17 +219,7 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, false, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions_for) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
+        if (!this->reaches(analysis_manager, open_definitions_for, *current_user)) {
             undefined_for.insert(current_user);
         }
     }
@@ -292,36 +234,7 @@ void DataDependencyAnalysis::visit_for(
 
     // Undefined reads are matched or forwarded
     for (auto open_read : undefined_for) {
-        // Simple check: no match or undefined user
-        std::unordered_set<User*> frontier;
-        bool found = false;
-        bool found_undefined_user = false;
-        for (auto& entry : open_definitions) {
-            if (intersects(*entry.first, *open_read, analysis_manager)) {
-                entry.second.insert(open_read);
-                found = true;
-                found_undefined_user = this->is_undefined_user(*entry.first);
-                frontier.insert(entry.first);
-            }
-        }
-        if (!found || found_undefined_user) {
-            undefined.insert(open_read);
-            continue;
-        }
-
-        // Users found, check if they fully cover the read
-        bool covered = false;
-        for (auto& entry : frontier) {
-            if (!dominance_analysis.dominates(*entry, *open_read)) {
-                continue;
-            }
-            bool covers = supersedes_restrictive(*open_read, *entry, analysis_manager);
-            if (covers) {
-                covered = true;
-                break;
-            }
-        }
-        if (!covered) {
+        if (!this->reaches(analysis_manager, open_definitions, *open_read)) {
             undefined.insert(open_read);
         }
     }
@@ -419,17 +332,7 @@ void DataDependencyAnalysis::visit_if_else(
         for (auto atom : symbolic::atoms(child)) {
             auto current_user = users.get_user(atom->get_name(), &if_else, Use::READ);
 
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *current_user)) {
-                    user.second.insert(current_user);
-                    found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
+            if (!this->reaches(analysis_manager, open_definitions, *current_user)) {
                 undefined.insert(current_user);
             }
         }
@@ -452,17 +355,7 @@ void DataDependencyAnalysis::visit_if_else(
     // merge partial open reads
     for (size_t i = 0; i < if_else.size(); i++) {
         for (auto& entry : undefined_branches.at(i)) {
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *entry)) {
-                    user.second.insert(entry);
-                    found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
+            if (!this->reaches(analysis_manager, open_definitions, *entry)) {
                 undefined.insert(entry);
             }
         }
@@ -477,35 +370,32 @@ void DataDependencyAnalysis::visit_if_else(
 
     // Close open reads_after_writes for complete branches
     if (if_else.is_complete()) {
+        // A prior definition is closed if every branch always overwrites all of it
         std::unordered_map<User*, std::unordered_set<User*>> to_close;
-        std::unordered_set<std::string> candidates;
-        std::unordered_set<std::string> candidates_tmp;
-
-        /* Complete close open reads_after_writes
-        1. get candidates from first iteration
-        2. iterate over all branches and prune candidates
-        3. find prior writes for remaining candidates
-        4. close open reads_after_writes for all candidates
-        */
-        for (auto& entry : open_definitions_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
-        for (auto& entry : closed_definitionss_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
-
-        for (size_t i = 1; i < if_else.size(); i++) {
-            for (auto& entry : open_definitions_branches.at(i)) {
-                if (candidates.find(entry.first->container()) != candidates.end()) {
-                    candidates_tmp.insert(entry.first->container());
+        for (auto& entry : open_definitions) {
+            if (this->is_undefined_user(*entry.first)) {
+                continue;
+            }
+            bool closed = true;
+            for (auto& branch : open_definitions_branches) {
+                bool overwritten = false;
+                bool may_be_skipped = false;
+                for (auto& definition : branch) {
+                    if (definition.first->container() != entry.first->container()) {
+                        continue;
+                    }
+                    if (this->is_undefined_user(*definition.first)) {
+                        may_be_skipped = true;
+                    } else if (this->covers(analysis_manager, *definition.first, *entry.first)) {
+                        overwritten = true;
+                    }
+                }
+                if (!overwritten || may_be_skipped) {
+                    closed = false;
+                    break;
                 }
             }
-            candidates.swap(candidates_tmp);
-            candidates_tmp.clear();
-        }
-
-        for (auto& entry : open_definitions) {
-            if (candidates.find(entry.first->container()) != candidates.end()) {
+            if (closed) {
                 to_close.insert(entry);
             }
         }
@@ -514,26 +404,39 @@ void DataDependencyAnalysis::visit_if_else(
             open_definitions.erase(entry.first);
             closed_definitions.insert(entry);
         }
-    } else {
-        // Incomplete if-else
+    }
 
-        // In order to determine whether a new read is undefined
-        // we would need to check whether all open definitions
-        // jointly dominate the read.
-        // Since this is expensive, we apply a trick:
-        // For incomplete if-elses and any newly opened definition in
-        // any branch, we add an artificial undefined user for that container.
-        // If we encounter this user later, we know that not all branches defined it.
-        // Hence, we can mark the read as (partially) undefined.
+    // In order to determine whether a new read is undefined
+    // we would need to check whether all open definitions
+    // jointly dominate the read.
+    // Since this is expensive, we apply a trick:
+    // For any newly opened definition, which is missing in at least
+    // one path (incomplete if-else or other branch), we add an artificial
+    // undefined user for that container.
+    // If we encounter this user later, we know that not all branches defined it.
+    // Hence, we can mark the read as (partially) undefined.
 
-        for (auto& branch : open_definitions_branches) {
-            for (auto& open_definition : branch) {
-                auto write = open_definition.first;
-                auto artificial_user = std::make_unique<
-                    User>(boost::graph_traits<graph::Graph>::null_vertex(), write->container(), nullptr, Use::WRITE);
-                this->undefined_users_.push_back(std::move(artificial_user));
-                open_definitions.insert({this->undefined_users_.back().get(), {}});
+    for (auto& branch : open_definitions_branches) {
+        for (auto& open_definition : branch) {
+            auto write = open_definition.first;
+            bool always_defined = if_else.is_complete();
+            for (auto& other_branch : open_definitions_branches) {
+                bool defined = false;
+                for (auto& other_definition : other_branch) {
+                    if (other_definition.first->container() == write->container()) {
+                        defined = true;
+                        break;
+                    }
+                }
+                always_defined = always_defined && defined;
             }
+            if (always_defined) {
+                continue;
+            }
+            auto artificial_user = std::make_unique<
+                User>(boost::graph_traits<graph::Graph>::null_vertex(), write->container(), nullptr, Use::WRITE);
+            this->undefined_users_.push_back(std::move(artificial_user));
+            open_definitions.insert({this->undefined_users_.back().get(), {}});
         }
     }
 
@@ -572,14 +475,7 @@ void DataDependencyAnalysis::visit_while(
         }
 
         // Connect to outside
-        bool found = false;
-        for (auto& entry : open_definitions) {
-            if (entry.first->container() == open_read->container()) {
-                entry.second.insert(open_read);
-                found = true;
-            }
-        }
-        if (!found) {
+        if (!this->reaches(analysis_manager, open_definitions, *open_read)) {
             undefined.insert(open_read);
         }
     }
@@ -602,14 +498,7 @@ void DataDependencyAnalysis::visit_return(
     if (return_statement.is_data() && !return_statement.data().empty()) {
         auto current_user = users.get_user(return_statement.data(), &return_statement, Use::READ);
 
-        bool found = false;
-        for (auto& user : open_definitions) {
-            if (user.first->container() == return_statement.data()) {
-                user.second.insert(current_user);
-                found = true;
-            }
-        }
-        if (!found) {
+        if (!this->reaches(analysis_manager, open_definitions, *current_user)) {
             undefined.insert(current_user);
         }
     }
@@ -654,14 +543,7 @@ void DataDependencyAnalysis::visit_sequence(
                 }
                 auto current_user = users.get_user(atom->get_name(), &child.second, Use::READ);
 
-                bool found = false;
-                for (auto& user : open_definitions) {
-                    if (user.first->container() == atom->get_name()) {
-                        user.second.insert(current_user);
-                        found = true;
-                    }
-                }
-                if (!found) {
+                if (!this->reaches(analysis_manager, open_definitions, *current_user)) {
                     undefined.insert(current_user);
                 }
             }
@@ -750,39 +632,52 @@ bool DataDependencyAnalysis::loop_depends(
     return false;
 }
 
-bool DataDependencyAnalysis::
-    supersedes_restrictive(User& previous, User& current, analysis::AnalysisManager& analysis_manager) {
-    if (previous.container() != current.container()) {
-        return false;
-    }
-    // Shortcut for scalars
-    auto& type = this->sdfg_.type(previous.container());
-    if (dynamic_cast<const types::Scalar*>(&type)) {
+bool DataDependencyAnalysis::covers(analysis::AnalysisManager& analysis_manager, User& definition, User& user) {
+    auto& type = sdfg_.type(definition.container());
+    if (type.type_id() == types::TypeID::Scalar) {
         return true;
     }
 
-    if (this->is_undefined_user(previous) || this->is_undefined_user(current)) {
+    if (!this->detailed_) {
         return false;
     }
 
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto& previous_subsets = previous.subsets();
-    auto& current_subsets = current.subsets();
-    auto previous_scope = Users::scope(&previous);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto current_scope = Users::scope(&current);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
+    // Innermost scope, which contains both users
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
+    auto scope = Users::scope(&definition);
+    auto user_scope = Users::scope(&user);
+    auto user_scopes = scope_analysis.ancestor_scopes(user_scope);
+    user_scopes.push_back(user_scope);
+    while (scope && std::find(user_scopes.begin(), user_scopes.end(), scope) == user_scopes.end()) {
+        scope = scope_analysis.parent_scope(scope);
+    }
+    if (!scope) {
+        return false;
+    }
 
-    // Check if previous subset is subset of any current subset
-    for (auto& previous_subset : previous_subsets) {
-        bool found = false;
-        for (auto& current_subset : current_subsets) {
-            if (symbolic::is_subset(previous_subset, current_subset, previous_assumptions, previous_assumptions)) {
-                found = true;
+    // A subset denotes the same elements for both users if its symbols do not change within that scope
+    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
+    auto& assumptions = assumptions_analysis.get(*scope, true);
+    for (auto& user_subset : user.subsets()) {
+        bool covered = false;
+        for (auto& subset : definition.subsets()) {
+            if (subset.size() != user_subset.size()) {
+                continue;
+            }
+            bool equal = true;
+            for (size_t i = 0; i < subset.size() && equal; i++) {
+                equal = symbolic::eq(subset[i], user_subset[i]);
+                for (auto& sym : symbolic::atoms(subset[i])) {
+                    auto assumption = assumptions.find(sym);
+                    equal = equal && assumption != assumptions.end() && assumption->second.constant();
+                }
+            }
+            if (equal) {
+                covered = true;
                 break;
             }
         }
-        if (!found) {
+        if (!covered) {
             return false;
         }
     }
@@ -790,48 +685,57 @@ bool DataDependencyAnalysis::
     return true;
 }
 
-bool DataDependencyAnalysis::intersects(User& previous, User& current, analysis::AnalysisManager& analysis_manager) {
-    if (previous.container() != current.container()) {
-        return false;
-    }
-    // Shortcut for scalars
-    auto& type = this->sdfg_.type(previous.container());
-    if (dynamic_cast<const types::Scalar*>(&type)) {
-        return true;
-    }
+bool DataDependencyAnalysis::may_be_skipped(analysis::AnalysisManager& analysis_manager, User& definition, User& read) {
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
+    auto read_scope = Users::scope(&read);
+    auto read_scopes = scope_analysis.ancestor_scopes(read_scope);
+    read_scopes.push_back(read_scope);
 
-    if (this->is_undefined_user(previous) || this->is_undefined_user(current)) {
-        return true;
-    }
-
-    if (!this->detailed_) {
-        return true;
+    for (auto scope : scope_analysis.ancestor_scopes(Users::scope(&definition))) {
+        if (std::find(read_scopes.begin(), read_scopes.end(), scope) != read_scopes.end()) {
+            break;
+        }
+        if (dynamic_cast<structured_control_flow::While*>(scope)) {
+            return true;
+        }
+        if (auto loop = dynamic_cast<structured_control_flow::StructuredLoop*>(scope)) {
+            auto first = symbolic::subs(loop->condition(), loop->indvar(), loop->init());
+            if (!symbolic::is_true(first)) {
+                return true;
+            }
+        }
     }
 
-    auto& previous_subsets = previous.subsets();
-    auto& current_subsets = current.subsets();
+    return false;
+}
 
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto previous_scope = Users::scope(&previous);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto current_scope = Users::scope(&current);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
+bool DataDependencyAnalysis::reaches(
+    analysis::AnalysisManager& analysis_manager,
+    std::unordered_map<User*, std::unordered_set<User*>>& open_definitions,
+    User& read
+) {
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    bool is_scalar = sdfg_.type(read.container()).type_id() == types::TypeID::Scalar;
 
-    // Check if any current subset intersects with any previous subset
     bool found = false;
-    for (auto& current_subset : current_subsets) {
-        for (auto& previous_subset : previous_subsets) {
-            if (!symbolic::is_disjoint(current_subset, previous_subset, current_assumptions, previous_assumptions)) {
-                found = true;
-                break;
-            }
+    bool dominated = false;
+    bool may_be_undefined = false;
+    for (auto& entry : open_definitions) {
+        if (!this->depends(analysis_manager, *entry.first, read)) {
+            continue;
         }
-        if (found) {
-            break;
+        entry.second.insert(&read);
+        found = true;
+
+        if (this->is_undefined_user(*entry.first) || this->may_be_skipped(analysis_manager, *entry.first, read)) {
+            may_be_undefined = true;
+        } else if (dominance_analysis.dominates(*entry.first, read)) {
+            dominated = dominated || this->covers(analysis_manager, *entry.first, read);
         }
     }
 
-    return found;
+    // Defined on all paths by one definition, or for scalars by several definitions on alternative paths
+    return dominated || (found && !may_be_undefined && (is_scalar || !this->detailed_));
 }
 
 bool DataDependencyAnalysis::
@@ -862,30 +766,7 @@ bool DataDependencyAnalysis::
         return false;
     }
 
-    // Collect memlets and assumptions
-    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
-    auto previous_scope = Users::scope(&previous);
-    auto current_scope = Users::scope(&current);
-    auto& previous_assumptions = assumptions_analysis.get(*previous_scope, true);
-    auto& current_assumptions = assumptions_analysis.get(*current_scope, true);
-
-    auto& previous_memlets = previous.subsets();
-    auto& current_memlets = current.subsets();
-
-    for (auto& subset_ : previous_memlets) {
-        bool overwritten = false;
-        for (auto& subset : current_memlets) {
-            if (symbolic::is_subset(subset_, subset, previous_assumptions, current_assumptions)) {
-                overwritten = true;
-                break;
-            }
-        }
-        if (!overwritten) {
-            return false;
-        }
-    }
-
-    return true;
+    return this->covers(analysis_manager, current, previous);
 }
 
 bool DataDependencyAnalysis::depends(analysis::AnalysisManager& analysis_manager, User& previous, User& current) {
-- 
2.43.0


From 25c9613f778119e789b7dc5973f44fff3342d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:19 +0000
Subject: [PATCH 47/52] fix: OpenMP loops are generated with a condition OpenMP
 accepts

A parallel loop with a conjunction as its condition was generated as an 'omp
parallel for' that no compiler accepts. The loop is now generated with its
canonical bound, or sequentially if it has none.
---
 .../omp/codegen/omp_map_dispatcher.cpp        | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/opt/src/targets/omp/codegen/omp_map_dispatcher.cpp b/opt/src/targets/omp/codegen/omp_map_dispatcher.cpp
index b925aa0..aee9f70 100644
--- a/opt/src/targets/omp/codegen/omp_map_dispatcher.cpp
+++ b/opt/src/targets/omp/codegen/omp_map_dispatcher.cpp
@@ -2,6 +2,7 @@
 
 #include "sdfg/targets/omp/schedule.h"
 
+#include <sdfg/analysis/assumptions_analysis.h>
 #include <sdfg/analysis/loop_analysis.h>
 #include <sdfg/analysis/users.h>
 #include <sdfg/codegen/dispatchers/node_dispatcher_registry.h>
@@ -12,6 +13,29 @@
 namespace sdfg {
 namespace omp {
 
+static symbolic::Condition
+canonical_condition(structured_control_flow::Map& map, analysis::AnalysisManager& analysis_manager) {
+    auto indvar = map.indvar();
+    auto condition = map.condition();
+    bool is_relational = SymEngine::is_a<SymEngine::StrictLessThan>(*condition) ||
+                         SymEngine::is_a<SymEngine::LessThan>(*condition);
+    bool is_unequal = SymEngine::is_a<SymEngine::Unequality>(*condition) &&
+                      symbolic::eq(map.update(), symbolic::add(indvar, symbolic::one()));
+    if (is_relational || is_unequal) {
+        auto args = condition->get_args();
+        if (symbolic::eq(args[0], indvar) != symbolic::eq(args[1], indvar)) {
+            return condition;
+        }
+    }
+
+    auto& assumptions_analysis = analysis_manager.get<analysis::AssumptionsAnalysis>();
+    auto bound = analysis::LoopAnalysis::canonical_bound(&map, assumptions_analysis);
+    if (bound.is_null()) {
+        return SymEngine::null;
+    }
+    return symbolic::Lt(indvar, bound);
+}
+
 OMPMapDispatcher::OMPMapDispatcher(
     codegen::LanguageExtension& language_extension,
     StructuredSDFG& sdfg,
@@ -44,6 +68,13 @@ void OMPMapDispatcher::dispatch_node(
 
     // Generate code
     main_stream << "// Map" << std::endl;
+
+    // OpenMP requires a comparison of the indvar and a bound; other loops remain sequential
+    auto condition = canonical_condition(node_, analysis_manager);
+    if (condition.is_null()) {
+        condition = node_.condition();
+        main_stream << "// sequential: ";
+    }
     main_stream << "#pragma omp parallel for";
 
     main_stream << " schedule(";
@@ -73,7 +104,7 @@ void OMPMapDispatcher::dispatch_node(
     main_stream << " = ";
     main_stream << language_extension_.expression(node_.init());
     main_stream << ";";
-    main_stream << language_extension_.expression(node_.condition());
+    main_stream << language_extension_.expression(condition);
     main_stream << ";";
     main_stream << node_.indvar()->get_name();
     main_stream << " = ";
-- 
2.43.0


From db7ac96d8b0c1bbfe6ae316f8c26c1de39eb031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:44 +0000
Subject: [PATCH 48/52] fix: loops that move pointers or write through aliases
 are not made parallel

Loop-carried dependencies are computed per container. For2Map now rejects loops
that move a pointer used before or after the move or outside of the loop, and
loops that write memory they also access by another pointer.
---
 .../passes/structured_control_flow/for2map.h  |  10 ++
 .../structured_control_flow/for2map.cpp       | 117 +++++++++++++++++-
 2 files changed, 126 insertions(+), 1 deletion(-)

diff --git a/sdfg/include/sdfg/passes/structured_control_flow/for2map.h b/sdfg/include/sdfg/passes/structured_control_flow/for2map.h
index 2c95b40..e4eb440 100644
--- a/sdfg/include/sdfg/passes/structured_control_flow/for2map.h
+++ b/sdfg/include/sdfg/passes/structured_control_flow/for2map.h
@@ -1,6 +1,10 @@
 #pragma once
 
+#include <string>
+#include <unordered_set>
+
 #include "sdfg/analysis/data_dependency_analysis.h"
+#include "sdfg/analysis/users.h"
 #include "sdfg/passes/pass.h"
 
 namespace sdfg {
@@ -10,6 +14,12 @@ class For2MapPass : public Pass {
 private:
     std::unique_ptr<analysis::DataDependencyAnalysis> data_dependency_analysis_;
 
+    /// The container and all containers, which may point to the same memory by references
+    std::unordered_set<std::string> aliases(analysis::Users& users, const std::string& container);
+
+    /// The container may point to other memory in each iteration
+    bool is_moved(analysis::UsersView& body_users, structured_control_flow::For& for_stmt, const std::string& container);
+
     bool can_be_applied(
         builder::StructuredSDFGBuilder& builder,
         analysis::AnalysisManager& analysis_manager,
diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index d1e4c9c..8eeaf66 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -1,6 +1,9 @@
 #include "sdfg/passes/structured_control_flow/for2map.h"
 
+#include <algorithm>
+
 #include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/dominance_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
@@ -11,6 +14,67 @@ namespace passes {
 
 std::string For2MapPass::name() { return "For2Map"; }
 
+std::unordered_set<std::string> For2MapPass::aliases(analysis::Users& users, const std::string& container) {
+    std::unordered_set<std::string> aliases = {container};
+    std::list<std::string> queue = {container};
+    while (!queue.empty()) {
+        auto current = queue.front();
+        queue.pop_front();
+
+        std::list<const data_flow::DataFlowNode*> others;
+        for (auto& move : users.moves(current)) {
+            if (auto node = dynamic_cast<const data_flow::AccessNode*>(move->element())) {
+                for (auto& iedge : node->get_parent().in_edges(*node)) {
+                    others.push_back(&iedge.src());
+                }
+            }
+        }
+        for (auto& view : users.views(current)) {
+            if (auto node = dynamic_cast<const data_flow::AccessNode*>(view->element())) {
+                for (auto& oedge : node->get_parent().out_edges(*node)) {
+                    others.push_back(&oedge.dst());
+                }
+            }
+        }
+        for (auto& other : others) {
+            auto access_node = dynamic_cast<const data_flow::AccessNode*>(other);
+            if (access_node && !dynamic_cast<const data_flow::ConstantNode*>(other) &&
+                aliases.insert(access_node->data()).second) {
+                queue.push_back(access_node->data());
+            }
+        }
+    }
+    return aliases;
+}
+
+bool For2MapPass::
+    is_moved(analysis::UsersView& body_users, structured_control_flow::For& for_stmt, const std::string& container) {
+    auto moves = body_users.moves(container);
+    if (moves.size() > 1) {
+        return true;
+    }
+    for (auto& move : moves) {
+        auto node = dynamic_cast<const data_flow::AccessNode*>(move->element());
+        if (!node) {
+            return true;
+        }
+        for (auto& iedge : node->get_parent().in_edges(*node)) {
+            auto src = dynamic_cast<const data_flow::AccessNode*>(&iedge.src());
+            if (!src || !body_users.writes(src->data()).empty() || !body_users.moves(src->data()).empty()) {
+                return true;
+            }
+            for (auto& dim : iedge.subset()) {
+                for (auto& sym : symbolic::atoms(dim)) {
+                    if (symbolic::eq(sym, for_stmt.indvar()) || !body_users.writes(sym->get_name()).empty()) {
+                        return true;
+                    }
+                }
+            }
+        }
+    }
+    return false;
+}
+
 bool For2MapPass::can_be_applied(
     builder::StructuredSDFGBuilder& builder,
     analysis::AnalysisManager& analysis_manager,
@@ -127,7 +191,58 @@ bool For2MapPass::can_be_applied(
         }
     }
 
-    // c. indvar not used after for
+    // c. Pointers moved in the loop are loop-local and moved before they are used
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    for (auto& use : body_users.uses()) {
+        auto moves = body_users.moves(use->container());
+        if (moves.empty() || use->use() == analysis::Use::MOVE) {
+            continue;
+        }
+        bool moved_before = std::any_of(moves.begin(), moves.end(), [&](analysis::User* move) {
+            return dominance_analysis.dominates(*move, *use);
+        });
+        if (!moved_before) {
+            return false;
+        }
+    }
+    for (auto& move : body_users.moves()) {
+        if (locals.find(move->container()) == locals.end()) {
+            return false;
+        }
+    }
+
+    // d. Written memory is not accessed by other pointers, which the dependencies do not account for
+    for (auto& write : body_users.writes()) {
+        bool is_local = true;
+        bool is_moved = false;
+        size_t accessed = 0;
+        for (auto& alias : this->aliases(users, write->container())) {
+            is_local = is_local && locals.find(alias) != locals.end();
+            is_moved = is_moved || this->is_moved(body_users, for_stmt, alias);
+            auto reads = body_users.reads(alias);
+            bool is_read = std::any_of(reads.begin(), reads.end(), [](analysis::User* read) {
+                // Loading the pointer itself does not access the memory it points to
+                auto node = dynamic_cast<const data_flow::AccessNode*>(read->element());
+                if (!node) {
+                    return true;
+                }
+                for (auto& oedge : node->get_parent().out_edges(*node)) {
+                    if (oedge.type() != data_flow::MemletType::Dereference_Src) {
+                        return true;
+                    }
+                }
+                return false;
+            });
+            if (is_read || !body_users.writes(alias).empty()) {
+                accessed++;
+            }
+        }
+        if ((is_moved || accessed > 1) && !is_local) {
+            return false;
+        }
+    }
+
+    // e. indvar not used after for
     std::unordered_set<const Element*> loop_elements = {&for_stmt};
     for (auto& user : body_users.uses(for_stmt.indvar()->get_name())) {
         loop_elements.insert(user->element());
-- 
2.43.0


From 5024196cdc5963f5d194c92f60b1b0276123d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:29 +0000
Subject: [PATCH 49/52] fix: OpenMP loops that stay sequential allocate and
 free their buffers twice, or have a step OpenMP rejects

---
 opt/src/targets/omp/codegen/omp_map_dispatcher.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opt/src/targets/omp/codegen/omp_map_dispatcher.cpp b/opt/src/targets/omp/codegen/omp_map_dispatcher.cpp
index aee9f70..9c3cfa3 100644
--- a/opt/src/targets/omp/codegen/omp_map_dispatcher.cpp
+++ b/opt/src/targets/omp/codegen/omp_map_dispatcher.cpp
@@ -16,6 +16,10 @@ namespace omp {
 static symbolic::Condition
 canonical_condition(structured_control_flow::Map& map, analysis::AnalysisManager& analysis_manager) {
     auto indvar = map.indvar();
+    if (symbolic::uses(symbolic::sub(map.update(), indvar), indvar)) {
+        return SymEngine::null;
+    }
+
     auto condition = map.condition();
     bool is_relational = SymEngine::is_a<SymEngine::StrictLessThan>(*condition) ||
                          SymEngine::is_a<SymEngine::LessThan>(*condition);
@@ -69,10 +73,11 @@ void OMPMapDispatcher::dispatch_node(
     // Generate code
     main_stream << "// Map" << std::endl;
 
-    // OpenMP requires a comparison of the indvar and a bound; other loops remain sequential
+    // OpenMP requires a comparison of the indvar and a bound, and a constant step; other loops remain sequential
     auto condition = canonical_condition(node_, analysis_manager);
     if (condition.is_null()) {
         condition = node_.condition();
+        locals.clear(); // there is only the copy of the function
         main_stream << "// sequential: ";
     }
     main_stream << "#pragma omp parallel for";
-- 
2.43.0


From d5f8f322c48605385b011fdedf7b95d9171298d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:29 +0000
Subject: [PATCH 50/52] fix: counting operations ends the process for loops
 with a step that is not constant

---
 sdfg/src/analysis/flop_analysis.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/analysis/flop_analysis.cpp b/sdfg/src/analysis/flop_analysis.cpp
index 30217bb..1f77e94 100644
--- a/sdfg/src/analysis/flop_analysis.cpp
+++ b/sdfg/src/analysis/flop_analysis.cpp
@@ -329,7 +329,10 @@ symbolic::Expression FlopAnalysis::visit_structured_loop_with_scope(
     auto update_coeffs = symbolic::affine_coefficients(update_polynomial, symbols);
 
     // For now, only allow polynomial of the form: 1 * indvar + n
-    assert(update_coeffs.contains(indvar) && symbolic::eq(update_coeffs[indvar], symbolic::one()));
+    if (!update_coeffs.contains(indvar) || !symbolic::eq(update_coeffs[indvar], symbolic::one())) {
+        this->precise_ = false;
+        return SymEngine::null;
+    }
     symbolic::Expression stride =
         this->replace_loop_indices(parameters, update_coeffs[symbolic::symbol("__daisy_constant__")], loop_assumptions);
 
-- 
2.43.0


From 04836323ac5517d36ae0bc2ec6f5dd886a8dc904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:29 +0000
Subject: [PATCH 51/52] fix: symbols of loop bounds that change between
 iterations are dimensions of the access maps

---
 sdfg/src/symbolic/utils.cpp | 39 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 8dc17e3..3c29228 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -252,28 +252,29 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
     seen.clear();
     auto constraints_syms_2 = generate_constraints(syms, assums2, seen);
 
-    // Extend parameters with additional symbols from constraints
-    for (auto& con : constraints_syms_1) {
-        auto con_syms = symbolic::atoms(con);
-        for (auto& con_sym : con_syms) {
-            if (dimensions_syms.find(con_sym) == dimensions_syms.end()) {
-                if (parameters_syms.find(con_sym) != parameters_syms.end()) {
+    // Extend dimensions and parameters with additional symbols from constraints
+    for (auto& constraints : {constraints_syms_1, constraints_syms_2}) {
+        for (auto& con : constraints) {
+            for (auto& con_sym : symbolic::atoms(con)) {
+                if (dimensions_syms.find(con_sym) != dimensions_syms.end() ||
+                    parameters_syms.find(con_sym) != parameters_syms.end()) {
                     continue;
                 }
-                parameters.push_back(con_sym->get_name());
-                parameters_syms.insert(con_sym);
-            }
-        }
-    }
-    for (auto& con : constraints_syms_2) {
-        auto con_syms = symbolic::atoms(con);
-        for (auto& con_sym : con_syms) {
-            if (dimensions_syms.find(con_sym) == dimensions_syms.end()) {
-                if (parameters_syms.find(con_sym) != parameters_syms.end()) {
-                    continue;
+
+                // Symbols without assumptions are unknown constants
+                bool constant = con_sym->get_name() != indvar->get_name();
+                for (auto& assums : {&assums1, &assums2}) {
+                    if (assums->find(con_sym) != assums->end() && !assums->at(con_sym).constant()) {
+                        constant = false;
+                    }
+                }
+                if (constant) {
+                    parameters.push_back(con_sym->get_name());
+                    parameters_syms.insert(con_sym);
+                } else if (assums1.find(con_sym) != assums1.end() && assums2.find(con_sym) != assums2.end()) {
+                    dimensions.push_back(con_sym->get_name());
+                    dimensions_syms.insert(con_sym);
                 }
-                parameters.push_back(con_sym->get_name());
-                parameters_syms.insert(con_sym);
             }
         }
     }
-- 
2.43.0


From 38dc332b4efb0b774a4e3bd11844e9d80eca12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:29 +0000
Subject: [PATCH 52/52] fix: loop bounds imply bounds of their symbols that do
 not hold

---
 sdfg/src/analysis/assumptions_analysis.cpp | 31 +++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index 8a63fb3..7d4df9f 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -1,5 +1,6 @@
 #include "sdfg/analysis/assumptions_analysis.h"
 
+#include <list>
 #include <utility>
 #include <vector>
 
@@ -21,6 +22,10 @@ symbolic::Expression AssumptionsAnalysis::cnf_to_upper_bound(const symbolic::CNF
     std::vector<symbolic::Expression> candidates;
 
     for (const auto& clause : cnf) {
+        // A disjunction does not imply any of its literals
+        if (clause.size() != 1) {
+            continue;
+        }
         for (const auto& literal : clause) {
             // Comparison: indvar < expr
             if (SymEngine::is_a<SymEngine::StrictLessThan>(*literal)) {
@@ -286,7 +291,31 @@ void AssumptionsAnalysis::traverse_structured_loop(
     // Assumption: any ub symbol is at least init
     for (auto& sym : symbolic::atoms(ub)) {
         body_assumptions[sym].add_lower_bound(symbolic::add(init, symbolic::one()));
-        body_assumptions[sym].lower_bound_deprecated(symbolic::add(init, symbolic::one()));
+    }
+
+    // This is implied for ub = symbol + constant, also as an argument of a minimum
+    std::list<symbolic::Expression> bounds = {ub};
+    while (!bounds.empty()) {
+        auto bound = bounds.front();
+        bounds.pop_front();
+        auto mins = SymEngine::atoms<SymEngine::Min>(*bound);
+        if (!mins.empty()) {
+            auto& min = *mins.begin();
+            auto constant = symbolic::expand(symbolic::sub(bound, min));
+            if (SymEngine::is_a<SymEngine::Integer>(*constant)) {
+                for (auto& arg : min->get_args()) {
+                    bounds.push_back(symbolic::expand(symbolic::add(arg, constant)));
+                }
+            }
+            continue;
+        }
+        for (auto& sym : symbolic::atoms(bound)) {
+            auto constant = symbolic::expand(symbolic::sub(sym, bound));
+            if (SymEngine::is_a<SymEngine::Integer>(*constant) && !symbolic::uses(init, sym)) {
+                body_assumptions[sym].lower_bound_deprecated(symbolic::add(init, symbolic::min(constant, symbolic::one()))
+                );
+            }
+        }
     }
 
     this->propagate(body, body_assumptions, outer_assumptions, outer_assumptions_with_trivial);
-- 
2.43.0

