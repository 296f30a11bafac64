From be1033688dfe6f23f06916736d66aa38df5e86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 01/44] fix: do not read past the end of the summands in
 fast_expansion_sum_zeroelim

---
 src/utils/Predicates.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/utils/Predicates.cpp b/src/utils/Predicates.cpp
index fd6723c..48c1ec9 100644
--- a/src/utils/Predicates.cpp
+++ b/src/utils/Predicates.cpp
@@ -792,19 +792,19 @@ protected:
         eindex = findex = 0;
         if ((fnow > enow) == (fnow > -enow)) {
             Q = enow;
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
         } else {
             Q = fnow;
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
         }
         hindex = 0;
         if ((eindex < elen) && (findex < flen)) {
             if ((fnow > enow) == (fnow > -enow)) {
                 Fast_Two_Sum(enow, Q, Qnew, hh);
-                enow = e[++eindex];
+                if (++eindex < elen) enow = e[eindex];
             } else {
                 Fast_Two_Sum(fnow, Q, Qnew, hh);
-                fnow = f[++findex];
+                if (++findex < flen) fnow = f[findex];
             }
             Q = Qnew;
             if (hh != 0.0) {
@@ -813,10 +813,10 @@ protected:
             while ((eindex < elen) && (findex < flen)) {
                 if ((fnow > enow) == (fnow > -enow)) {
                     Two_Sum(Q, enow, Qnew, hh);
-                    enow = e[++eindex];
+                    if (++eindex < elen) enow = e[eindex];
                 } else {
                     Two_Sum(Q, fnow, Qnew, hh);
-                    fnow = f[++findex];
+                    if (++findex < flen) fnow = f[findex];
                 }
                 Q = Qnew;
                 if (hh != 0.0) {
@@ -826,7 +826,7 @@ protected:
         }
         while (eindex < elen) {
             Two_Sum(Q, enow, Qnew, hh);
-            enow = e[++eindex];
+            if (++eindex < elen) enow = e[eindex];
             Q = Qnew;
             if (hh != 0.0) {
                 h[hindex++] = hh;
@@ -834,7 +834,7 @@ protected:
         }
         while (findex < flen) {
             Two_Sum(Q, fnow, Qnew, hh);
-            fnow = f[++findex];
+            if (++findex < flen) fnow = f[findex];
             Q = Qnew;
             if (hh != 0.0) {
                 h[hindex++] = hh;
-- 
2.43.0


From 208146e6b8b60e75b8fb9781c7bdd41544b88398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 02/44] fix: number recognition accepts only an optional sign
 in front of the digits

The character class "[(-|+)|]" is the range from ( to |, so "a123" was an
integer and "+0.5" was not a float.
---
 include/utils/StringUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/StringUtils.h b/include/utils/StringUtils.h
index 1b0d998..824ac0d 100644
--- a/include/utils/StringUtils.h
+++ b/include/utils/StringUtils.h
@@ -7,11 +7,11 @@
 bool is_int(const std::string & s){
     return !s.empty() &&
            ((s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|][0-9]+")));
+           || std::regex_match(s, std::regex("[-+]?[0-9]+")));
 }
 
 bool is_float(const std::string & s){
     return !s.empty() && (
            (s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|](([1-9][0-9]*\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
+           || std::regex_match(s, std::regex("[-+]?(([0-9]+\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
 }
\ No newline at end of file
-- 
2.43.0


From 395ae7514b5b5a1032ae86b4aec23562376cc44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 03/44] fix: concurrent increments of a profiling counter are
 no longer lost

---
 include/utils/Timings.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utils/Timings.h b/include/utils/Timings.h
index 530411c..68ad90c 100644
--- a/include/utils/Timings.h
+++ b/include/utils/Timings.h
@@ -90,7 +90,8 @@ public:
     tMeasurement avgMeasurement(const std::string &name) const;
 
     void incCounter(const std::string &name, const tMeasurement &value = 1) {
-        m_counters[name] += value;
+        // the counters are shared between threads
+        __atomic_fetch_add(&m_counters[name], value, __ATOMIC_RELAXED);
     }
 
     const auto &counters() const {
-- 
2.43.0


From 24c4d4e6d5c98016c45c97697c5d3373019a995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 04/44] fix: progress display reads its count outside the lock

operator+= returned the shared count after releasing the lock and count()
read it while other threads were writing it.
---
 include/utils/ProgressDisplay.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/utils/ProgressDisplay.h b/include/utils/ProgressDisplay.h
index 504e9be..4b54027 100644
--- a/include/utils/ProgressDisplay.h
+++ b/include/utils/ProgressDisplay.h
@@ -51,13 +51,14 @@ public:
     {
         while (_mtx.test_and_set(std::memory_order_acquire)) // acquire lock
             ;                                                  // spin
-        if ((_count += increment) >= _next_tic_count) {
+        const unsigned long count = (_count += increment);
+        if (count >= _next_tic_count) {
             display_tic();
         }
 
         _mtx.clear(std::memory_order_release); // release lock
 
-        return _count;
+        return count;
     }
 
     unsigned long operator++() { return operator+=(1); }
@@ -72,7 +73,8 @@ private:
     const std::string m_s2; //  const char *, and efficiency or size are
     const std::string m_s3; //  not issues
 
-    unsigned long _count, _expected_count, _next_tic_count;
+    std::atomic<unsigned long> _count; // written under the lock, read by count() without
+    unsigned long _expected_count, _next_tic_count;
     unsigned int _tic;
     std::atomic_flag _mtx = ATOMIC_FLAG_INIT;
 
-- 
2.43.0


From 82a09bd21b896ca514f6f9698eb6c9d8f2a8f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 05/44] fix: checked access to a blocked array accepted the
 index one past the end

---
 include/datastructures/BlockedArray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 0f6b966..0e5bfaf 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -41,13 +41,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
@@ -93,13 +93,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
-- 
2.43.0


From 2932f5550ae9a6d3aef8d86e7445fb616a3a600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 06/44] fix: a moved-from blocked array no longer reports the
 blocks it gave away

---
 include/datastructures/BlockedArray.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 0e5bfaf..7121e46 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -22,6 +22,7 @@ public:
     BlockedArray(BlockedArray && other){
         m_nBlocks = other.m_nBlocks;
         m_blocks = std::move(other.m_blocks);
+        other.m_nBlocks = 0;
     }
 
     void reserve(const std::size_t &capacity) {
@@ -74,6 +75,7 @@ public:
     Concurrent_BlockedArray(Concurrent_BlockedArray && other){
         m_nBlocks.store(other.m_nBlocks.load());
         m_blocks = std::move(other.m_blocks);
+        other.m_nBlocks.store(0);
     }
 
     void reserve(const std::size_t &capacity) {
-- 
2.43.0


From 9654b5c9295e614cb246bf76a61fbe9e5cd06dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 07/44] fix: insertion sort of arrays with more than 32767
 elements wrote outside the array

---
 include/utils/StaticSort.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/StaticSort.h b/include/utils/StaticSort.h
index 1825da9..762dfaa 100644
--- a/include/utils/StaticSort.h
+++ b/include/utils/StaticSort.h
@@ -9,7 +9,7 @@ void static_insertion_sort(std::array<T, N> &arr) {
 
     for (unsigned short i = 1; i < N; ++i) {
         T value = arr[i];
-        short hole = i;
+        unsigned short hole = i;
 
         for (; hole > 0 && value < arr[hole - 1]; --hole)
             arr[hole] = arr[hole - 1];
@@ -25,7 +25,7 @@ void static_insertion_sort_with_data(std::array<T, N> &arr, std::array<D, N> &da
     for (unsigned short i = 1; i < N; ++i) {
         T value = arr[i];
         D data = dat[i];
-        short hole = i;
+        unsigned short hole = i;
 
         for (; hole > 0 && value < arr[hole - 1]; --hole) {
             arr[hole] = arr[hole - 1];
-- 
2.43.0


From 3c3f45d5fba96c383df7ad677a50a9a1d9c02835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 08/44] fix: host name buffer is always terminated

---
 src/utils/System.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/System.cpp b/src/utils/System.cpp
index 099ce78..265ab19 100644
--- a/src/utils/System.cpp
+++ b/src/utils/System.cpp
@@ -12,8 +12,8 @@ tGenerator startGen(START_SEED);
 
 
 std::string getHostname() {
-    char hostname[128];
-    gethostname(hostname, sizeof(hostname));
+    char hostname[128] = "";
+    gethostname(hostname, sizeof(hostname) - 1); // a truncated name need not be terminated
     return std::string(hostname);
 }
 
-- 
2.43.0


From 41f1050f60eee460074a38f76f771a8e855e71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 09/44] fix: empty stack trace leaks the address list

---
 src/utils/System.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/System.cpp b/src/utils/System.cpp
index 265ab19..4705eb5 100644
--- a/src/utils/System.cpp
+++ b/src/utils/System.cpp
@@ -49,6 +49,7 @@ std::string print_stacktrace(const std::string & file, const int line, const uin
 
     if (addrlen == 0) {
         ss << "\t<empty, possibly corrupt>\n";
+        delete[] addrlist;
         return ss.str();
     }
 
-- 
2.43.0


From 3a581ce2e93aa897112b239637dfa44d672dad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 10/44] fix: parallel multiscale sort recursed forever on
 ranges it could not split

With the default threshold of 1 a single element was split into an empty range
and itself again.
---
 include/mods/Multiscale_sort.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mods/Multiscale_sort.h b/include/mods/Multiscale_sort.h
index a274474..5dfa388 100644
--- a/include/mods/Multiscale_sort.h
+++ b/include/mods/Multiscale_sort.h
@@ -45,9 +45,10 @@ public:
     void operator() (RandomAccessIterator begin, RandomAccessIterator end) const
     {
 	typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-        if (end - begin >= _threshold) {
-            auto middle = begin + difference_type (double(end - begin) * _ratio);
+        auto middle = begin + difference_type (double(end - begin) * _ratio);
 
+        // both parts have to be smaller than the range for the recursion to end
+        if (end - begin >= _threshold && middle != begin && middle != end) {
             auto left = std::move(std::async(std::launch::async, &Multiscale_sort<Sort>::operator()<RandomAccessIterator>, this, begin, middle));
             auto right = std::move(std::async(std::launch::async, &Multiscale_sort<Sort>::operator()<RandomAccessIterator>, this, middle, end));
 
-- 
2.43.0


From acf8c1084e21e4fe3cb1d1496fe050d6136eecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 11/44] fix: predicates compiled for a machine with fused
 multiply-add returned wrong signs

-march=native lets the compiler contract a*b+c, which breaks the error-free
transformations: 2D orientation was wrong on nearly collinear points.
---
 src/utils/CMakeLists.txt | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/CMakeLists.txt b/src/utils/CMakeLists.txt
index b5c49da..286ccd2 100644
--- a/src/utils/CMakeLists.txt
+++ b/src/utils/CMakeLists.txt
@@ -46,3 +46,6 @@ add_library(Predicates EXCLUDE_FROM_ALL
         Predicates.cpp
         )
 
+# the exact arithmetic relies on every operation being rounded: no fused multiply-add
+target_compile_options(Predicates PRIVATE -ffp-contract=off)
+
-- 
2.43.0


From 37002f02685bd2cd5255e2698200ee695baf9b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 12/44] fix: ExperimentRun::operator== does not count ignored
 fields when comparing the number of traits

---
 src/utils/Timings.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index 5066629..feef6f9 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -76,7 +76,14 @@ ExperimentRun::tMeasurement ExperimentRun::avgMeasurement(const std::string &nam
 
 bool ExperimentRun::operator==(const ExperimentRun &o) const {
 
-    if (m_traits.size() != o.m_traits.size())
+    // the ignored fields do not count
+    auto size = m_traits.size(), oSize = o.m_traits.size();
+    for (const auto &f : c_ignored_fields) {
+        size -= m_traits.count(f);
+        oSize -= o.m_traits.count(f);
+    }
+
+    if (size != oSize)
         return false;
 
     bool eq = true;
-- 
2.43.0


From c60d70f641c5a01da0dc0fd7858170bd8a7c352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:39 +0000
Subject: [PATCH 13/44] fix: Concurrent_BlockedArray::reserve makes blocks
 usable in order

---
 include/datastructures/BlockedArray.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 7121e46..1d741c9 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -3,6 +3,7 @@
 #include <vector>
 #include <memory>
 #include <atomic>
+#include <mutex>
 
 #include "utils/TBB_Containers.h"
 
@@ -80,6 +81,9 @@ public:
 
     void reserve(const std::size_t &capacity) {
 
+        // a block counts only once all blocks before it are in place
+        std::lock_guard<std::mutex> lock(m_growth);
+
         while (m_nBlocks.load() * BS < capacity) {
             m_blocks.emplace_back(new T[BS]);
             ++m_nBlocks;
@@ -107,6 +111,7 @@ public:
     }
 
 private:
+    std::mutex m_growth;
     std::atomic<std::size_t> m_nBlocks;
     tbb::concurrent_vector<block_ptr> m_blocks;
 
-- 
2.43.0


From c63a762618b07e10fc744d2ea97581422b2cb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:27 +0000
Subject: [PATCH 14/44] fix: multiscale sort passes on exceptions of its
 parallel parts

---
 include/mods/Multiscale_sort.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mods/Multiscale_sort.h b/include/mods/Multiscale_sort.h
index 5dfa388..8432bbf 100644
--- a/include/mods/Multiscale_sort.h
+++ b/include/mods/Multiscale_sort.h
@@ -52,8 +52,8 @@ public:
             auto left = std::move(std::async(std::launch::async, &Multiscale_sort<Sort>::operator()<RandomAccessIterator>, this, begin, middle));
             auto right = std::move(std::async(std::launch::async, &Multiscale_sort<Sort>::operator()<RandomAccessIterator>, this, middle, end));
 
-            left.wait();
-            right.wait();
+            left.get();
+            right.get();
         } else {
             _sort (begin, end);
         }
-- 
2.43.0


From a5eacc910c33a32ea69635529740ba9e0d217a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 15/44] fix: VTuneTask::start on a running task left that task
 open

---
 include/utils/VTuneAdapter.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils/VTuneAdapter.h b/include/utils/VTuneAdapter.h
index ade8464..3a4e16c 100644
--- a/include/utils/VTuneAdapter.h
+++ b/include/utils/VTuneAdapter.h
@@ -78,6 +78,8 @@ public:
     }
 
     void start() {
+        end(); // a task that is running already would never be ended
+
         __itt_task_begin(m_domain.handle(), __itt_null, __itt_null, m_name.handle());
         m_running = true;
     }
-- 
2.43.0


From a8c313f198ac05cae4323f7f69b141fae93edcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:38 +0000
Subject: [PATCH 16/44] fix: dSimplex::equalNeighbors reports equal neighbors
 as equal

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 13c7c10..7d3b896 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -499,7 +499,7 @@ public:
     bool equalNeighbors(const dSimplex<D, Precision> &a) const {
         PROFILER_INC("dSimplex_equalNeighbors");
 
-        return neighbors != a.neighbors;
+        return neighbors == a.neighbors;
     }
 
     bool operator==(const tIdType a) const { return id == a; }
-- 
2.43.0


From 2f18033a0fc928afb1c8477fd2da4ba30a07db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:38 +0000
Subject: [PATCH 17/44] fix: rotating a vertex hash by zero does not shift by
 the full width

---
 include/Geometry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 7d3b896..6d76173 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -659,7 +659,8 @@ private:
     }
 
     inline tHashType _rol(const tHashType x, const uint r) const {
-        return (x << r) | (x >> (sizeof(tHashType) * 8 - r));
+        const uint bits = sizeof(tHashType) * 8;
+        return (x << r) | (x >> ((bits - r) & (bits - 1))); // r may be zero
     }
 
 public:
-- 
2.43.0


From 04900b2f90974ee9255f89287ce63dbc02b1b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:15 +0000
Subject: [PATCH 18/44] fix: in-sphere test compares signs instead of an
 underflowing product

---
 src/lib/Geometry.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 884adfa..5f7099d 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -183,7 +183,11 @@ public:
 //
 //        det = alift * bcdet + blift * cadet + clift * abdet;
 
-        return orientation(s0, s1, s2) * Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data()) >= 0;
+        // compare the signs, the product of the determinants may underflow
+        const auto orient = orientation(s0, s1, s2);
+        const auto sphere = Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data());
+
+        return (orient >= 0 && sphere >= 0) || (orient <= 0 && sphere <= 0);
     }
 
     static dSphere<2, Precision>
@@ -406,7 +410,11 @@ public:
 //
 //        det = (dlift * abc - clift * dab) + (blift * cda - alift * bcd);
 
-        return orientation(s0, s1, s2, s3) * Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data()) >= 0;
+        // compare the signs, the product of the determinants may underflow
+        const auto orient = orientation(s0, s1, s2, s3);
+        const auto sphere = Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data());
+
+        return (orient >= 0 && sphere >= 0) || (orient <= 0 && sphere <= 0);
     }
 
     static dSphere<3, Precision>
-- 
2.43.0


From 090870a251ce57fb52cb10932a13e71fbcdd8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:15 +0000
Subject: [PATCH 19/44] fix: squared distance to a face is the square of the
 projection on its normal

---
 src/lib/Geometry.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 5f7099d..d7d3208 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -142,7 +142,9 @@ public:
 
         auto n = dVector<2, Precision>({ v[1], -v[0] });
 
-        return std::abs(dot(n,r) / dot(n, n));
+        auto nr = dot(n, r);
+
+        return nr * nr / dot(n, n);
     }
 
     static bool inSphere(const dPoint<2, Precision> &p,
@@ -349,7 +351,9 @@ public:
                                          (u[2] * v[0] - u[0] * v[2]),
                                          (u[0] * v[1] - u[1] * v[0]) });
 
-        return std::abs(dot(w,n) / dot(n,n));
+        auto nw = dot(n, w);
+
+        return nw * nw / dot(n, n);
     }
 
     static bool inSphere(const dPoint<3, Precision> &p,
-- 
2.43.0


From 274a9f752eb50a1e2f367b86e9a0f3797a647037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:04 +0000
Subject: [PATCH 20/44] fix: root of the AABB tree contains the cell of a point
 on its upper bound

---
 include/datastructures/AABBTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/AABBTree.h b/include/datastructures/AABBTree.h
index 32adbc7..184d12e 100644
--- a/include/datastructures/AABBTree.h
+++ b/include/datastructures/AABBTree.h
@@ -249,7 +249,8 @@ private:
         // round bounds to cell size
         for(uint d = 0; d < D; ++d){
             bounds.low[d] = std::floor(bounds.low[d] / cell_size) * cell_size;
-            bounds.high[d] = std::ceil(bounds.high[d] / cell_size) * cell_size;
+            // the cell of a point with the greatest coordinate starts at or before it, even if it lies on the grid
+            bounds.high[d] = (std::floor(bounds.high[d] / cell_size) + 1) * cell_size;
         }
 
         return bounds;
-- 
2.43.0


From cddd0ff2341df8d0a1d61b426fef513a2e19ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:02 +0000
Subject: [PATCH 21/44] fix: nextPow2(0) is 1

It was 0, so hash tables for an estimated 0 elements had no slots: insertion accessed the
array out of bounds, growing doubled a capacity of 0 for ever.
---
 include/utils/Misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/Misc.h b/include/utils/Misc.h
index 88d856f..ab5bfa6 100644
--- a/include/utils/Misc.h
+++ b/include/utils/Misc.h
@@ -19,7 +19,7 @@ T isPowN(const T x, const T n) {
 
 template<typename T, typename std::enable_if<std::is_unsigned<T>::value>::type * = nullptr>
 T nextPow2(const T x) {
-    T v = x - 1;
+    T v = x == 0 ? 0 : x - 1;
 
     for (T s = 1; s < sizeof(T) * CHAR_BIT; s <<= 1) {
         v |= v >> s;
-- 
2.43.0


From bf34e085a1a2cdd33c428183d7462178d3222a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:02 +0000
Subject: [PATCH 22/44] fix: hash tables grow before they are full

The load of maps and multimaps was an integer division, a set of one slot took a key without
growing. Looking up an absent key in a full table never ended.
---
 include/datastructures/LP_Map.hxx      | 2 +-
 include/datastructures/LP_MultiMap.hxx | 2 +-
 include/datastructures/LP_Set.hxx      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 8c1d7fd..73b82ca 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -45,7 +45,7 @@ public:
     bool insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && m_items >= m_arraySize >> 1)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index fa9557d..e831b39 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -131,7 +131,7 @@ public:
 
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && m_items >= m_arraySize >> 1)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index d096c6d..555e153 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -305,7 +305,7 @@ public:
     bool insert(const K &key) {
         ASSERT(key != 0);
 
-        if (Growing && !m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
+        if (Growing && !m_rehashing && m_items >= m_arraySize >> 1)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From 2cf293135d94c8775e0e1e407c0b96bb89099251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:02 +0000
Subject: [PATCH 23/44] fix: LP_Set::merge applies cmp to its own keys, too

---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 555e153..c7868f3 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -423,7 +423,7 @@ public:
 
     template<class Set, bool Growing2>
     void merge(LP_Set<K, Growing2> &&other, const Set &filter, const bool cmp = false) {
-        rehash(2*(size() + other.size()), filter);
+        rehash(2*(size() + other.size()), filter, cmp);
 
         for (std::size_t i = 0; i < other.capacity(); ++i) {
             if (other.m_array[i] != 0 && filter.count(other.m_array[i]) == cmp)
-- 
2.43.0


From 6ec365eb1c2dcfa062f35173a27a85fa740c9372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:02 +0000
Subject: [PATCH 24/44] fix: probing a full Concurrent_LP_Set ends

A set that doesn't grow may fill up: looking up an absent key, or losing the race for the last
slot, probed for ever.
---
 include/datastructures/LP_Set.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index c7868f3..56b25d8 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -580,7 +580,7 @@ public:
         K cols = 0;
         for (K idx = m_hasher(key); ; idx++) {
 
-            if (Growing && cols > c_growThreshold) {
+            if (cols > (Growing ? c_growThreshold : m_arraySize)) {
                 return InsertReturn::State::Full;
             }
 
@@ -620,15 +620,17 @@ public:
     K get(const K &key) const {
         ASSERT(key != 0);
 
-        for (K idx = m_hasher(key); ; idx++) {
+        K idx = m_hasher(key);
+        for (std::size_t i = 0; i < m_arraySize; ++i, ++idx) {
             idx &= m_arraySize - 1;
             K probedKey = m_array[idx].load();
             if (probedKey == key)
-                return key;;
+                return key;
             if (probedKey == 0)
                 return 0;
         }
 
+        return 0; // the table is full and doesn't contain the key
     }
 
     bool contains(const K &key) const {
-- 
2.43.0


From 1e8b5a23ee4ab3dc6b738ba6f6a96f074f3109bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:02 +0000
Subject: [PATCH 25/44] fix: the range of a multimap lookup ends at the free
 slot

It ended one after it, which is the first entry of the range if the table has only one free
slot: the lookup found nothing.
---
 include/datastructures/LP_MultiMap.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index e831b39..6296c09 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -178,13 +178,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
@@ -464,13 +464,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
-- 
2.43.0


From d4b2ffe86555a9418ebd65c282fb8dc3d46ee0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:02 +0000
Subject: [PATCH 26/44] fix: copying into a Concurrent_LP_MultiMap sets its
 number of items

---
 include/datastructures/LP_MultiMap.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 6296c09..ba30967 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -524,12 +524,13 @@ public:
 
     template<class Source>
     void unsafe_copy(const Source &other) {
-        ASSERT(m_arraySize == other.size());
+        ASSERT(m_arraySize == other.capacity());
         for (std::size_t i = 0; i < m_arraySize; ++i) {
             auto pair = other.at(i);
             m_keys[i] = pair.first;
             m_values[i] = pair.second;
         }
+        m_items.store(other.size());
     }
 
     template<class Source, class Filter>
-- 
2.43.0


From 5194731a8b10743bd324d1f95ffd3c3c38da20ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:42 +0000
Subject: [PATCH 27/44] fix: migrating a hash map never drops entries

Entries were moved with insert(), which refuses them if the target is half full. The internal
_insert() of maps didn't return after storing the entry.
---
 include/datastructures/LP_Map.hxx      | 5 ++++-
 include/datastructures/LP_MultiMap.hxx | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 73b82ca..d57d575 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -465,6 +465,7 @@ private:
 
             if (probedKey == key) {
                 m_values[idx].store(value, std::memory_order_relaxed); // update value
+                return;
             }
             else {
                 // The entry was either free, or contains another key.
@@ -476,9 +477,11 @@ private:
                 if (cas) {
                     m_values[idx].store(value, std::memory_order_relaxed); // insert value
                     ++m_items;
+                    return;
                 }
                 else if (prevKey == key) {
                     m_values[idx].store(value, std::memory_order_relaxed); // update value
+                    return;
                 } else
                     continue; // another thread inserted a different key in this position
             }
@@ -486,7 +489,7 @@ private:
     }
 
     void _insert(const std::pair<K, V> &pair) {
-        insert(pair.first, pair.second);
+        _insert(pair.first, pair.second);
     }
 
     void _migrate(const std::size_t idx, Concurrent_LP_Map<K, V> &target) {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index ba30967..2a04035 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -627,7 +627,7 @@ private:
     }
 
     void _insert(const std::pair<K, V> &pair) {
-        insert(pair.first, pair.second);
+        _insert(pair.first, pair.second);
     }
 
     void _migrate(const std::size_t idx, Concurrent_LP_MultiMap<K, V> &target) {
-- 
2.43.0


From 6613422b86512a75012bb515b9a10973cb9e735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:42 +0000
Subject: [PATCH 28/44] fix: get of a key being inserted in a concurrent map
 yields 0, not garbage

---
 include/datastructures/LP_Map.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index d57d575..e9f5281 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -432,7 +432,7 @@ private:
 
     inline void _allocate(const std::size_t size) {
         m_keys.reset(new std::atomic<K>[size]()); // zero init
-        m_values.reset(new std::atomic<V>[size]); // random init
+        m_values.reset(new std::atomic<V>[size]()); // zero init, a concurrent get may precede the store of the value
     }
 
 public:
-- 
2.43.0


From 8e3dfa3c7bf90460ac52a39f820d1e3316a7ce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:42 +0000
Subject: [PATCH 29/44] fix: concurrent insertions don't fill a hash map

Several threads could pass the check of the load before any of them counted its entry. A full
table makes every further probe for another key endless.
---
 include/datastructures/LP_Map.hxx      | 8 ++++++--
 include/datastructures/LP_MultiMap.hxx | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index e9f5281..78651e8 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -293,8 +293,11 @@ public:
     InsertReturn insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (m_items.load() >= m_arraySize >> 1)
+        // reserve a slot, so that concurrent insertions can't fill the table
+        if (m_items.fetch_add(1) >= m_arraySize >> 1) {
+            --m_items;
             return InsertReturn::State::Full;
+        }
 
         for (K idx = m_hasher(key); ; idx++) {
             idx &= m_arraySize - 1;
@@ -305,6 +308,7 @@ public:
 
             if (probedKey == key) {
                 m_values[idx].store(value, std::memory_order_relaxed); // update value
+                --m_items;
                 return false; // the key is already in the set, return false;
             }
             else {
@@ -316,11 +320,11 @@ public:
                 bool cas = m_keys[idx].compare_exchange_strong(prevKey, key);
                 if (cas) {
                     m_values[idx].store(value, std::memory_order_relaxed); // insert value
-                    ++m_items;
                     return true; // we just added the key to the set
                 }
                 else if (prevKey == key) {
                     m_values[idx].store(value, std::memory_order_relaxed); // update value
+                    --m_items;
                     return false; // the key was already added by another thread update it
                 } else
                     continue; // another thread inserted a different key in this position
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 2a04035..547211b 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -403,9 +403,11 @@ public:
     InsertReturn insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-
-        if (m_items.load() >= m_arraySize >> 1)
+        // reserve a slot, so that concurrent insertions can't fill the table
+        if (m_items.fetch_add(1) >= m_arraySize >> 1) {
+            --m_items;
             return InsertReturn::State::Full;
+        }
 
         std::size_t cols = 0; //count number of steps
         for (K idx = m_hasher(key); ; idx++) {
@@ -429,7 +431,6 @@ public:
             bool cas = m_keys[idx].compare_exchange_strong(prevKey, key);
             if (cas) {
                 m_values[idx].store(value, std::memory_order_relaxed); // insert value
-                ++m_items;
                 return true; // we just added the key to the set
             } else {
                 cols += prevKey != key;
-- 
2.43.0


From dd4c4c982d1b7ff055cfce73f78792d6cb5dc96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:42 +0000
Subject: [PATCH 30/44] fix: handles copy the pointer to the current table
 under the lock

Another thread may replace it at the same time and free the table.
---
 include/datastructures/Growing_LP.hxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index b4b8a62..4f63060 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -72,7 +72,7 @@ private:
     }
 
     std::atomic_uint helperThreads;
-    std::mutex grow_mutex;
+    mutable std::mutex grow_mutex;
 
 };
 
@@ -181,7 +181,10 @@ public:
 private:
     void getTable() const {
         l_epoch = parent.g_epoch_r.load();
-        l_table = parent.g_table_r;
+        {
+            std::lock_guard<std::mutex> lock(parent.grow_mutex);
+            l_table = parent.g_table_r;
+        }
 
         if (l_table->m_version != l_epoch) {
             getTable();
@@ -338,7 +341,10 @@ public:
 private:
     void getTable() const {
         l_epoch = parent.g_epoch_r.load();
-        l_table = parent.g_table_r;
+        {
+            std::lock_guard<std::mutex> lock(parent.grow_mutex);
+            l_table = parent.g_table_r;
+        }
 
         if (l_table->m_version != l_epoch) {
             getTable();
-- 
2.43.0


From 62ddd96abbff1e36bd8e1e83416ea5b66e17b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:42 +0000
Subject: [PATCH 31/44] fix: growing a hash table doesn't lose insertions under
 way

An insertion that started before the growth could take a slot of the old table after that slot
had been migrated. The migration now waits for the insertions that haven't seen the new epoch.
---
 include/datastructures/Growing_LP.hxx  | 12 ++++++++++++
 include/datastructures/LP_Map.hxx      |  1 +
 include/datastructures/LP_MultiMap.hxx |  1 +
 include/datastructures/LP_Set.hxx      |  1 +
 4 files changed, 15 insertions(+)

diff --git a/include/datastructures/Growing_LP.hxx b/include/datastructures/Growing_LP.hxx
index 4f63060..6973a8c 100644
--- a/include/datastructures/Growing_LP.hxx
+++ b/include/datastructures/Growing_LP.hxx
@@ -225,7 +225,15 @@ public:
                 grow();
             }
         }
+        // announce the insertion, a migration of the table waits for it
+        l_table->m_writers.fetch_add(1);
+        if (parent.g_epoch_w.load() > l_table->m_version) {
+            // the migration started in the meantime
+            l_table->m_writers.fetch_sub(1);
+            return insert(args...);
+        }
         auto result = l_table->insert(args...);
+        l_table->m_writers.fetch_sub(1);
         if (result == InsertReturn::State::Full) {
             grow();
             return insert(args...);
@@ -372,6 +380,10 @@ private:
         auto t_epoch = l_table->m_version;
         parent.g_epoch_w.compare_exchange_strong(t_epoch, w_table->m_version);
 
+        //wait for insertions that have not seen the new epoch
+        while (l_table->m_writers.load())
+        {};
+
         //nhelper ++
         parent.helperThreads.fetch_add(1);
 
diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 78651e8..0bbbf51 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -511,6 +511,7 @@ private:
     Hasher<K> m_hasher;
 
     std::atomic<std::size_t> m_currentCopyBlock;
+    std::atomic<std::size_t> m_writers{0};
 
 };
 
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 547211b..b8f5384 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -646,6 +646,7 @@ private:
     Hasher<K> m_hasher;
 
     std::atomic<std::size_t> m_currentCopyBlock;
+    std::atomic<std::size_t> m_writers{0};
 
     const static uint c_growThreshold = 10;
 
diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 56b25d8..bf975f8 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -782,6 +782,7 @@ private:
     Hasher<K> m_hasher;
 
     std::atomic<std::size_t> m_currentCopyBlock;
+    std::atomic<std::size_t> m_writers{0};
 
     const static uint c_growThreshold = 10;
 
-- 
2.43.0


From d7f943b85e57d995712439661ab669549402e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:31 +0000
Subject: [PATCH 32/44] fix: point statistics of points with only negative
 coordinates

numeric_limits::min() is the smallest positive number, not the most negative one.
---
 include/Partitioner.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Partitioner.h b/include/Partitioner.h
index 61e77ec..985893d 100644
--- a/include/Partitioner.h
+++ b/include/Partitioner.h
@@ -79,7 +79,7 @@ struct dPointStats {
         for (uint dim = 0; dim < D; ++dim) {
             min[dim] = std::numeric_limits<Precision>::max();
             mid[dim] = 0;
-            max[dim] = std::numeric_limits<Precision>::min();
+            max[dim] = std::numeric_limits<Precision>::lowest();
         }
     }
 
@@ -122,7 +122,7 @@ dPointStats<D, Precision> getPointStatsSeq(const InputIt &first,
 
     for (uint dim = 0; dim < D; ++dim) {
         stats.min[dim] = std::numeric_limits<Precision>::max();
-        stats.max[dim] = std::numeric_limits<Precision>::min();
+        stats.max[dim] = std::numeric_limits<Precision>::lowest();
 
         for (auto it = first; it != last; ++it) {
 
-- 
2.43.0


From 78b806ac1f7c0e62cf7884c76d1eaa5060fe6e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:31 +0000
Subject: [PATCH 33/44] fix: bounds of loaded points with only negative
 coordinates

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 6d76173..8a1d56c 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -260,7 +260,7 @@ public:
 
         dBox<D, Precision> bounds;
         bounds.low.fill(std::numeric_limits<Precision>::max());
-        bounds.high.fill(std::numeric_limits<Precision>::min());
+        bounds.high.fill(std::numeric_limits<Precision>::lowest());
 
 #ifndef NDEBUG
         std::size_t lc = 0;
-- 
2.43.0


From a118b1006b3ef1485b04642a09c3f2e27cff5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:31 +0000
Subject: [PATCH 34/44] fix: ExtendPartitioner indexed dimension -1 for points
 without extent

---
 src/lib/Partitioner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Partitioner.cpp b/src/lib/Partitioner.cpp
index b2d07f9..d994f5a 100644
--- a/src/lib/Partitioner.cpp
+++ b/src/lib/Partitioner.cpp
@@ -200,7 +200,7 @@ ExtendPartitioner<D, Precision>::partition(const dPointStats<D, Precision> &stat
 
     // determine most vast dimension
     Precision maxExtend = 0;
-    int maxDim = -1;
+    int maxDim = 0; // any dimension will do if the points have no extent
 
     for (uint d = 0; d < D; ++d) {
         if (stats.max[d] - stats.min[d] > maxExtend) {
-- 
2.43.0


From 058414017b6932220233e31ce255acbe704ec34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:31 +0000
Subject: [PATCH 35/44] fix: data race on vector<bool> in the intersection
 partition makers

Different partitions are handled by different tasks, but share words of the bit vector.
---
 include/load_balancing/BoundsIntersectionChecker.h | 2 +-
 include/load_balancing/GridIntersectionChecker.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/load_balancing/BoundsIntersectionChecker.h b/include/load_balancing/BoundsIntersectionChecker.h
index 75f31d0..df29243 100644
--- a/include/load_balancing/BoundsIntersectionChecker.h
+++ b/include/load_balancing/BoundsIntersectionChecker.h
@@ -58,7 +58,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // written concurrently, not vector<bool>
 			
 			tbb::parallel_for(size_t(0), partitions, [&](auto partition) {
 			    for(auto id : idss[partition]) {
diff --git a/include/load_balancing/GridIntersectionChecker.h b/include/load_balancing/GridIntersectionChecker.h
index d1d1988..fb22a89 100644
--- a/include/load_balancing/GridIntersectionChecker.h
+++ b/include/load_balancing/GridIntersectionChecker.h
@@ -124,7 +124,7 @@ namespace LoadBalancing
 				idss.emplace_back(std::move(ids.data()));
 			}
 			std::vector<dBox<D, Precision>> boundss(partitions);
-			std::vector<bool> initialized(partitions);
+			std::vector<char> initialized(partitions); // written concurrently, not vector<bool>
 			std::vector<std::unordered_set<dIndex<D, IndexPrecision>,
 				dIndexHasher<D, IndexPrecision>>> indices(partitions);
 			
-- 
2.43.0


From d95c09f1ad20a34efc2d08295bd3db8f838d5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:31 +0000
Subject: [PATCH 36/44] fix: AccurateGridIntersectionPartitionMaker leaked the
 grid intersection checkers

---
 include/load_balancing/AccurateGridIntersectionChecker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/AccurateGridIntersectionChecker.h b/include/load_balancing/AccurateGridIntersectionChecker.h
index c6a878b..3bd4b86 100644
--- a/include/load_balancing/AccurateGridIntersectionChecker.h
+++ b/include/load_balancing/AccurateGridIntersectionChecker.h
@@ -137,7 +137,7 @@ namespace LoadBalancing
 			for(auto& partition : gridIntersectionPartitioning) {
 				auto intersectionChecker = std::move(partition.intersectionChecker);
 				auto gridIntersectionChecker =
-					*(dynamic_cast<GIC*>(intersectionChecker.release()));
+					*(dynamic_cast<GIC*>(intersectionChecker.get()));
 				partition.intersectionChecker =
 					std::make_unique<AGIC>(std::move(gridIntersectionChecker),
 					                       cellsPtr, points, ids);
-- 
2.43.0


From bf2c01f98465629e5416d8c3e5c77416560a2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:31 +0000
Subject: [PATCH 37/44] fix: KWaySplitter divided by zero for points without
 extent

The conversion of the resulting NaN to an integer is undefined.
---
 include/load_balancing/kWaySplitter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/load_balancing/kWaySplitter.h b/include/load_balancing/kWaySplitter.h
index 19d62bc..c4c10ef 100644
--- a/include/load_balancing/kWaySplitter.h
+++ b/include/load_balancing/kWaySplitter.h
@@ -72,7 +72,7 @@ namespace LoadBalancing
                     for(auto id : range) {
                         if(dPoint<D, Precision>::isFinite(id)) {
                             auto coord = points[id].coords[dim];
-                            float normalizedAxisPosition = (coord - min)/(max - min);
+                            float normalizedAxisPosition = max > min ? (coord - min)/(max - min) : 0;
                             int partition = (size_t)std::floor(normalizedAxisPosition
                                                                * numPartitions);
                             partition = std::clamp(partition, 0, (int)numPartitions - 1);
-- 
2.43.0


From bab6c1f3da16fbee75a0cba8d8a35bbda9cc8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:54 +0000
Subject: [PATCH 38/44] fix: LP_Set made of a full concurrent set searched
 absent keys forever

---
 include/datastructures/LP_Set.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index bf975f8..2f2be68 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -795,7 +795,12 @@ LP_Set<K, Growing>::LP_Set(Concurrent_LP_Set<K, Growing2> &&other)
         : m_arraySize(other.m_arraySize),
           m_items(other.m_items),
           m_array(reinterpret_cast<K *>(other.m_array.release())),
-          m_hasher(std::move(other.m_hasher)) { }
+          m_hasher(std::move(other.m_hasher)) {
+
+    // probing for an absent key ends at an empty slot only
+    if (m_items > 0 && m_items == m_arraySize)
+        rehash(m_arraySize << 1);
+}
 
 template<typename K, bool Growing> template<bool Growing2>
 Concurrent_LP_Set<K, Growing>::Concurrent_LP_Set(LP_Set<K, Growing2> &&other)
-- 
2.43.0


From 8d3ee037245178c4c821e4db22b8f688a89f50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:38 +0000
Subject: [PATCH 39/44] fix: LoadBalancing::Partitioner lacked a virtual
 destructor

Partitioners are owned and deleted through pointers to it.
---
 include/load_balancing/Partitioner.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/load_balancing/Partitioner.h b/include/load_balancing/Partitioner.h
index df783d4..f88a75f 100644
--- a/include/load_balancing/Partitioner.h
+++ b/include/load_balancing/Partitioner.h
@@ -8,6 +8,8 @@ namespace LoadBalancing
     template <uint D, typename Precision, typename MonitorT>
     struct Partitioner
     {
+        virtual ~Partitioner() = default;
+
         virtual PartitionTree<D, Precision> partition(const dBox<D, Precision>& bounds,
                                         dPoints<D, Precision>& points,
                                         const Point_Ids& pointIds,
-- 
2.43.0


From c12ca554ee6721b4d9457c27668fdaa4e41c4683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:23 +0000
Subject: [PATCH 40/44] fix: verify took the unused entry 0 of the points for
 an unused point

---
 src/lib/Geometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index d7d3208..9c7a9ba 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -939,7 +939,8 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                 }
             }
         } else {
-            for (std::size_t i = 0; i < points.finite_size(); ++i) {
+            const auto ids = points.range(); // excludes the unused entry 0
+            for (auto i = ids.begin(); i != ids.end(); ++i) {
                 const auto &p = points[i];
                 if (usedPoints.count(i) != 1 && dPoint<D, Precision>::isFinite(i)) {
                     sNotUsed << i << " - " << p << " ";
-- 
2.43.0


From f537d47d7e5281f97e9e5d30c586608b12b38e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:23 +0000
Subject: [PATCH 41/44] fix: verify skipped the given points when every point
 is used

---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 9c7a9ba..d630a52 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -926,7 +926,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
     for (const auto &s : *this) {
         usedPoints.insert(s.vertices.begin(), s.vertices.end());
     }
-    if (points != usedPoints) {
+    if (pointIds || points != usedPoints) {
         // not all points of input used
         std::stringstream sNotUsed;
 
-- 
2.43.0


From f621bb1765b4b3c6cee798cc75e870a3bb2813af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:23 +0000
Subject: [PATCH 42/44] fix: crossCheck left out the rest of a range after a
 missing simplex

---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index d630a52..48abe8f 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -836,7 +836,7 @@ CrossCheckReport<D, Precision> dSimplices<D, Precision>::crossCheck(
                 LOG("did not find simplex " << realSimplex << std::endl);
                 result.valid = false;
                 result.missing.push_back(realSimplex);
-                return;
+                continue;
             }
 
             // check neighbors
-- 
2.43.0


From 6124c8d6fa9dd7b020bf6d110185d830f7209ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:02 +0000
Subject: [PATCH 43/44] fix: parallel tasks drew hash multipliers from the
 generator without a lock

---
 include/datastructures/LP_Set.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 2f2be68..e984911 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -23,10 +23,20 @@
 #include <boost/serialization/access.hpp>
 #include <boost/serialization/array.hpp>
 
+namespace _detail {
+    inline std::mutex &generatorMutex() {
+        static std::mutex mtx;
+        return mtx;
+    }
+}
+
 template<typename T>
 struct Hasher {
 
     Hasher() {
+        // parallel tasks create tables and share the generator
+        std::lock_guard<std::mutex> lock(_detail::generatorMutex());
+
         std::uniform_int_distribution<T> dist(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
         while (a = dist(startGen), a % 2 == 0) { } // find odd value
     }
-- 
2.43.0


From 4d9cab1d357bec0daa32f0b8faf2fea2446d98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:29 +0000
Subject: [PATCH 44/44] fix: outer vertices were placed around the origin, not
 around the points

---
 include/LoadBalancedDCTriangulator.tpp | 2 +-
 src/lib/DCTriangulator.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LoadBalancedDCTriangulator.tpp b/include/LoadBalancedDCTriangulator.tpp
index e73b28e..9adb3b8 100644
--- a/include/LoadBalancedDCTriangulator.tpp
+++ b/include/LoadBalancedDCTriangulator.tpp
@@ -88,7 +88,7 @@ namespace LoadBalancing
                 p.coords = stats.mid;
 
                 for (uint d = 0; d < D; ++d)
-                    p.coords[d] =
+                    p.coords[d] +=
                             (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
                 this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
diff --git a/src/lib/DCTriangulator.cpp b/src/lib/DCTriangulator.cpp
index 6905f0e..9bd87ce 100644
--- a/src/lib/DCTriangulator.cpp
+++ b/src/lib/DCTriangulator.cpp
@@ -78,7 +78,7 @@ DCTriangulator<D, Precision>::DCTriangulator(
             p.coords = stats.mid;
 
             for (uint d = 0; d < D; ++d)
-                p.coords[d] =
+                p.coords[d] +=
                         (i & (1 << d) ? 1 : -1) * 2 * SAFETY * (stats.max[d] - stats.min[d]);
 
             this->points[dPoint<D, Precision>::cINF | i] = std::move(p);
-- 
2.43.0

