From 27d0758bca493dcd9f0c0ff8a40ae008dd06e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:16 +0000
Subject: [PATCH 01/38] fix: keep pruned nodes defined when states are merged
 in multi-processor builders

DdBuilderMP left the node of a state discarded by merge_states()==1
uninitialized although states merged into it earlier still refer to it, and
ZddSubsetterMP additionally forwarded the surviving state to that node.
Follow the serial builders: the discarded node becomes a dead node and the
surviving state gets its own one.
---
 include/tdzdd/dd/DdBuilder.hpp | 50 ++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/include/tdzdd/dd/DdBuilder.hpp b/include/tdzdd/dd/DdBuilder.hpp
index a8b8c07..edd14bf 100644
--- a/include/tdzdd/dd/DdBuilder.hpp
+++ b/include/tdzdd/dd/DdBuilder.hpp
@@ -549,7 +549,8 @@ public:
                         else {
                             switch (spec.merge_states(state(p0), state(p))) {
                             case 1:
-                                code(p0) = 0;
+                                *srcPtr(p0) = 0; // forward to 0-terminal
+                                srcPtr(p0) = 0;  // its node becomes dead
                                 code(p) = ++j; // code(p) >= 1
                                 p0 = p;
                                 break;
@@ -616,9 +617,18 @@ public:
                         }
 
                         size_t j = j0 + code(p);
-                        *srcPtr(p) = NodeId(i, j);
-
                         Node<AR> &q = output[i][j];
+
+                        if (srcPtr(p) == 0) { // pruned but may be referred
+                            for (int b = 0; b < AR; ++b) {
+                                q.branch[b] = 0;
+                            }
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
+                        *srcPtr(p) = NodeId(i, j);
                         bool allZero = true;
                         void* s = tmpState;
 
@@ -1090,17 +1100,25 @@ public:
                     for (MyListOnPool<SpecNode>::iterator t = snodes.begin();
                             t != snodes.end(); ++t) {
                         SpecNode* p = *t;
-                        SpecNode* pp = uniq.add(p);
+                        SpecNode*& p0 = uniq.add(p);
 
-                        if (pp == p) {
+                        if (p0 == p) {
                             code(p) = ++jj; // code(p) >= 1
                         }
                         else {
-                            code(p) = -code(pp);
-                            if (int prune = spec.merge_states(state(pp),
-                                    state(p))) {
-                                if (prune & 1) code(pp) = 0;
-                                if (prune & 2) code(p) = 0;
+                            switch (spec.merge_states(state(p0), state(p))) {
+                            case 1:
+                                *srcPtr(p0) = 0; // forward to 0-terminal
+                                srcPtr(p0) = 0;  // its node becomes dead
+                                code(p) = ++jj; // code(p) >= 1
+                                p0 = p;
+                                break;
+                            case 2:
+                                code(p) = 0;
+                                break;
+                            default:
+                                code(p) = -code(p0);
+                                break;
                             }
                         }
                     }
@@ -1145,8 +1163,18 @@ public:
                         }
 
                         size_t const jj = jj0 + code(p);
-                        *srcPtr(p) = NodeId(i, jj);
                         Node<AR> &q = output[i][jj];
+
+                        if (srcPtr(p) == 0) { // pruned but may be referred
+                            for (int b = 0; b < AR; ++b) {
+                                q.branch[b] = 0;
+                            }
+                            spec.destruct(state(p));
+                            ++deadCount;
+                            continue;
+                        }
+
+                        *srcPtr(p) = NodeId(i, jj);
                         bool allZero = true;
                         void* s = tmpState;
 
-- 
2.43.0


From 7ac156e990ab60972e5a7e14dbf571eeb26fa324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:58 +0000
Subject: [PATCH 02/38] fix: initialize every evaluator copy before parallel
 evaluation

The copies were initialized inside a parallel region; when OpenMP gives a
later region more threads than that one (dynamic adjustment), nodes were
evaluated by copies that had never been initialized.
---
 include/tdzdd/DdStructure.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 950aef8..9543129 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -475,10 +475,7 @@ public:
 #endif
         eval.initialize(n);
 #ifdef _OPENMP
-        if (useMP)
-#pragma omp parallel
-        {
-            int k = omp_get_thread_num();
+        for (int k = 0; k < threads; ++k) {
             evals[k].initialize(n);
         }
 #endif
-- 
2.43.0


From e643b751ee08da54273dbd758e1c0a41b94abf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:02 +0000
Subject: [PATCH 03/38] fix: make NodeTableHandler self-assignment safe

The old object was dereferenced, and possibly deleted, before the new one
was referenced, so assigning a diagram to itself used a freed node table.
---
 include/tdzdd/dd/NodeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 0cf4536..7f5e9ea 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -436,9 +436,9 @@ public:
     }
 
     NodeTableHandler& operator=(NodeTableHandler const& o) {
+        o.pointer->ref();
         pointer->deref();
         pointer = o.pointer;
-        pointer->ref();
         return *this;
     }
 
-- 
2.43.0


From 5dd210e351648cd5604e30fb20dd028afbd99ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 04/38] fix: keep the shared node table referenced until its
 private copy exists

privateEntity() and init() dropped their reference before allocating the
new table, so a failed allocation left a pointer without a reference and
the table was released once too often.
---
 include/tdzdd/dd/NodeTable.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 7f5e9ea..d6d23eb 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -460,8 +460,9 @@ public:
      */
     NodeTableEntity<ARITY>& privateEntity() {
         if (pointer->refCount >= 2) {
+            Object* tmp = new Object(pointer->entity);
             pointer->deref();
-            pointer = new Object(pointer->entity);
+            pointer = tmp;
         }
         return pointer->entity;
     }
@@ -476,8 +477,9 @@ public:
             pointer->entity.init(n);
         }
         else {
+            Object* tmp = new Object(n);
             pointer->deref();
-            pointer = new Object(n);
+            pointer = tmp;
         }
         return pointer->entity;
     }
-- 
2.43.0


From 7b4726b83638545b2e800d0659325a1ff0c94401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:03 +0000
Subject: [PATCH 05/38] fix: do not free a hash table's storage twice when
 growing it fails

initialize() left the table pointing to the released storage when the new
storage could not be allocated, so the destructor released it again.
---
 include/tdzdd/util/MyHashTable.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/MyHashTable.hpp b/include/tdzdd/util/MyHashTable.hpp
index 1a1e8e9..3ab5fdc 100644
--- a/include/tdzdd/util/MyHashTable.hpp
+++ b/include/tdzdd/util/MyHashTable.hpp
@@ -310,9 +310,11 @@ public:
             }
         }
         else {
-            tableCapacity_ = tableSize_;
             delete[] table;
-            table = new Entry[tableCapacity_]();
+            table = 0;
+            tableCapacity_ = 0;
+            table = new Entry[tableSize_]();
+            tableCapacity_ = tableSize_;
         }
     }
 
-- 
2.43.0


From 605fba0e181aad87cf6ba664c956653b1b7b310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:53 +0000
Subject: [PATCH 06/38] fix: print states of intersections of three or more
 specifications

print_state() used level1(), which intersections do not have, so dumping
such a specification did not compile.
---
 include/tdzdd/op/BinaryOperation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 9650a41..8e88533 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -291,7 +291,7 @@ struct ZddIntersection_: public ZddIntersection_<S,S1,ZddIntersection<SS...>> {
 
     void print_state(std::ostream& os, void const* p, int level) const {
         Word const* q = static_cast<Word const*>(p);
-        os << "<" << base::level1(q) << ",";
+        os << "<";
         base::spec1.print_state(os, base::state1(q), level);
         os << ">∩";
         base::spec2.print_state(os, base::state2(q), level);
-- 
2.43.0


From 2d36ca2cc68734d4977196b6cc0df3923f988d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:13 +0000
Subject: [PATCH 07/38] fix: destroy the scalar state of a hybrid specification

HybridDdSpec copy-constructed the scalar part of its states but never
destroyed it, so a state that owns memory was leaked for every node.
---
 include/tdzdd/DdSpec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/DdSpec.hpp b/include/tdzdd/DdSpec.hpp
index bd21a21..216df11 100644
--- a/include/tdzdd/DdSpec.hpp
+++ b/include/tdzdd/DdSpec.hpp
@@ -614,6 +614,7 @@ public:
     }
 
     void destruct(void* p) {
+        s_state(p).~S_State();
     }
 
     void destructLevel(int level) {
-- 
2.43.0


From feb9b4aeb5922bb4903065a8dc4e2db815d03ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:38 +0000
Subject: [PATCH 08/38] fix: construct both part states of a composed
 specification's root

BddAnd, BddOr and ZddIntersection returned a terminal root before the
second part's state was constructed, although the caller destroys (or
copies) both parts' states afterwards.
---
 include/tdzdd/op/BinaryOperation.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 8e88533..2d6019c 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -171,9 +171,8 @@ struct BddAnd_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 == 0) return 0;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -241,9 +240,8 @@ struct BddOr_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 < 0) return -1;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 < 0) return -1;
+        if (i1 < 0 || i2 < 0) return -1;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -345,9 +343,8 @@ public:
 
     int getRoot(Word* p) {
         int i1 = spec1.get_root(state1(p));
-        if (i1 == 0) return 0;
         int i2 = spec2.get_root(state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
 
         while (i1 != i2) {
             if (i1 > i2) {
-- 
2.43.0


From 3fcd31c1aeed536ce3b3ea92a020535ac5bff202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:02 +0000
Subject: [PATCH 09/38] fix: size the counting buffers for all variables of
 bddCardinality()

The work areas were sized for the levels of the diagram only, so counting
over many more variables than the top level overran them.
---
 include/tdzdd/eval/Cardinality.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/eval/Cardinality.hpp b/include/tdzdd/eval/Cardinality.hpp
index a44e675..8688610 100644
--- a/include/tdzdd/eval/Cardinality.hpp
+++ b/include/tdzdd/eval/Cardinality.hpp
@@ -24,6 +24,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 
@@ -107,7 +108,8 @@ public:
         topLevel = level;
         pools.resize(topLevel + 1);
 
-        int max = ceil(double(topLevel) * log2(double(ARITY)) / 63.0) + 1;
+        int digits = std::max(topLevel, numVars);
+        int max = ceil(double(digits) * log2(double(ARITY)) / 63.0) + 1;
         tmp1.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp2.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp3.setArray(pools[topLevel].template allocate<uint64_t>(max));
-- 
2.43.0


From 240f626c9458e1b3840c069cf09e1557695b8563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 10/38] fix: read the last line of an edge list that has no
 newline

---
 include/tdzdd/util/Graph.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index ce77e6c..caa2d92 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -171,8 +171,12 @@ private:
     void readEdges(std::istream& is) {
         std::string v, v1, v2;
 
-        while (is) {
-            char c = is.get();
+        for (bool last = false; !last;) {
+            int c = is.get();
+            if (!is) { // the end of the input ends its last line
+                last = true;
+                c = '\n';
+            }
 
             if (isspace(c)) {
                 if (!v.empty()) {
@@ -206,13 +210,6 @@ private:
                 v += c;
             }
         }
-
-        if (!v1.empty() && !v2.empty()) {
-            edgeNames.push_back(std::make_pair(v1, v2));
-        }
-        else if (!v1.empty()) {
-            throw std::runtime_error("ERROR: Only one token in a line");
-        }
     }
 
     void readAdjacencyList(std::istream& is) {
-- 
2.43.0


From d2c428767ffa4de9ff128650b7ea47ab90f067fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:04 +0000
Subject: [PATCH 11/38] fix: report read errors and malformed numbers in graph
 input instead of using a part of it

---
 include/tdzdd/util/Graph.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index caa2d92..a0a5bc5 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -174,6 +174,7 @@ private:
         for (bool last = false; !last;) {
             int c = is.get();
             if (!is) { // the end of the input ends its last line
+                if (is.bad()) throw std::runtime_error("ERROR: Read error");
                 last = true;
                 c = '\n';
             }
@@ -221,16 +222,19 @@ private:
         VertexNumber v2;
 
         while (is) {
-            char c;
+            int c;
             while (isspace(c = is.get())) {
                 if (c == '\n') ++v1;
             }
             if (!is) break;
             is.unget();
             is >> v2;
+            checkNumber(is);
 
             edgeNames.push_back(std::make_pair(to_string(v1), to_string(v2)));
         }
+
+        if (is.bad()) throw std::runtime_error("ERROR: Read error");
     }
 
     void readVertexGroups(std::istream& is) {
@@ -240,7 +244,7 @@ private:
         name2color.clear();
 
         while (is) {
-            char c;
+            int c;
             while (isspace(c = is.get())) {
                 if (c == '\n') {
                     color = getColor(n++);
@@ -251,9 +255,17 @@ private:
 
             VertexNumber v;
             is >> v;
+            checkNumber(is);
 
             name2color[to_string(v)] = color;
         }
+
+        if (is.bad()) throw std::runtime_error("ERROR: Read error");
+    }
+
+    void checkNumber(std::istream& is) {
+        if (is.bad()) throw std::runtime_error("ERROR: Read error");
+        if (!is) throw std::runtime_error("ERROR: Not a vertex number");
     }
 
     std::string getColor(int n) {
-- 
2.43.0


From 80ded6877e6859b29c8e4c39ad30e3b2c535b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:42 +0000
Subject: [PATCH 12/38] fix: write the root of a terminal-only diagram in
 dumpSapporo()

---
 include/tdzdd/DdStructure.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 9543129..d132c6a 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -741,7 +741,15 @@ public:
             }
         }
 
-        os << nodeId[root_.row()][root_.col()] << "\n";
+        if (root_ == 0) {
+            os << "F\n";
+        }
+        else if (root_ == 1) {
+            os << "T\n";
+        }
+        else {
+            os << nodeId[root_.row()][root_.col()] << "\n";
+        }
         assert(k == l * 2);
     }
 };
-- 
2.43.0


From cdb36f3bd04ceeda8cfd6769833fc7109fd920aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:30 +0000
Subject: [PATCH 13/38] fix: do not accept Hamiltonian paths and cycles that
 leave vertices out

The test for untouched vertices did not look at vertices that had not yet
entered the frontier array, nor (for cycles) at its first vertex.
---
 include/tdzdd/spec/PathZdd.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 6eac119..59ff7e5 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -81,7 +81,8 @@ private:
                 if (w1 != w2) return NO;
                 if (!e.allColorsSeen) return YES;
 
-                bool clean = true;
+                // a Hamiltonian path cannot end before all vertices are seen
+                bool clean = !hamilton || m < e.v0 + mateArraySize_;
                 for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
@@ -96,7 +97,10 @@ private:
             if (w1 == e.v2) {
                 assert(w2 == e.v1);
 
-                for (int k = 1; k < mateArraySize_; ++k) {
+                // a Hamiltonian cycle cannot close before all vertices are seen
+                if (hamilton && m >= e.v0 + mateArraySize_) return NO;
+
+                for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
                     int w = mate[k];
-- 
2.43.0


From aa3477229a55f226a8d7afb4b4e19eb02abc5954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:36 +0000
Subject: [PATCH 14/38] fix: report read errors and incomplete nodes of a ZDD
 file instead of using a part of it

---
 include/tdzdd/spec/GraphillionZdd.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tdzdd/spec/GraphillionZdd.hpp b/include/tdzdd/spec/GraphillionZdd.hpp
index c739368..4069f1b 100644
--- a/include/tdzdd/spec/GraphillionZdd.hpp
+++ b/include/tdzdd/spec/GraphillionZdd.hpp
@@ -94,11 +94,14 @@ private:
                 is >> node.index;
                 node.child[0] = readID(is);
                 node.child[1] = readID(is);
+                if (!is) throw std::runtime_error("ERROR: Incomplete node");
 
                 addNode(id, node);
             }
             skipLine(is);
         }
+
+        if (is.bad()) throw std::runtime_error("ERROR: Read error");
     }
 
     static uint64_t readID(std::istream& is) {
-- 
2.43.0


From d5d9cd451e0df37c272a2b826fc5242dc3b614fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:38 +0000
Subject: [PATCH 15/38] Revert "fix: report read errors and incomplete nodes of
 a ZDD file instead of using a part of it"

This reverts commit aa3477229a55f226a8d7afb4b4e19eb02abc5954.
---
 include/tdzdd/spec/GraphillionZdd.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/tdzdd/spec/GraphillionZdd.hpp b/include/tdzdd/spec/GraphillionZdd.hpp
index 4069f1b..c739368 100644
--- a/include/tdzdd/spec/GraphillionZdd.hpp
+++ b/include/tdzdd/spec/GraphillionZdd.hpp
@@ -94,14 +94,11 @@ private:
                 is >> node.index;
                 node.child[0] = readID(is);
                 node.child[1] = readID(is);
-                if (!is) throw std::runtime_error("ERROR: Incomplete node");
 
                 addNode(id, node);
             }
             skipLine(is);
         }
-
-        if (is.bad()) throw std::runtime_error("ERROR: Read error");
     }
 
     static uint64_t readID(std::istream& is) {
-- 
2.43.0


From e7d927ab6c05f23e7b4bb3e82053cf22d6cc74bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:38 +0000
Subject: [PATCH 16/38] Revert "fix: do not accept Hamiltonian paths and cycles
 that leave vertices out"

This reverts commit cdb36f3bd04ceeda8cfd6769833fc7109fd920aa.
---
 include/tdzdd/spec/PathZdd.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 59ff7e5..6eac119 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -81,8 +81,7 @@ private:
                 if (w1 != w2) return NO;
                 if (!e.allColorsSeen) return YES;
 
-                // a Hamiltonian path cannot end before all vertices are seen
-                bool clean = !hamilton || m < e.v0 + mateArraySize_;
+                bool clean = true;
                 for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
@@ -97,10 +96,7 @@ private:
             if (w1 == e.v2) {
                 assert(w2 == e.v1);
 
-                // a Hamiltonian cycle cannot close before all vertices are seen
-                if (hamilton && m >= e.v0 + mateArraySize_) return NO;
-
-                for (int k = 0; k < mateArraySize_; ++k) {
+                for (int k = 1; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
                     int w = mate[k];
-- 
2.43.0


From 51e4a75d58e4b041ae05a77167300da14ae47344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:28 +0000
Subject: [PATCH 17/38] fix: do not run the exporter to BDD with several
 workers

---
 include/tdzdd/eval/ToBDD.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/eval/ToBDD.hpp b/include/tdzdd/eval/ToBDD.hpp
index 9039688..453003e 100644
--- a/include/tdzdd/eval/ToBDD.hpp
+++ b/include/tdzdd/eval/ToBDD.hpp
@@ -51,6 +51,10 @@ public:
             : offset(offset) {
     }
 
+    bool isThreadSafe() const {
+        return false;
+    }
+
     void initialize(int topLevel) const {
         while (BDD_VarUsed() < topLevel + offset) {
             BDD_NewVar();
-- 
2.43.0


From b53dc2a3facde0b45949cf337c169cc6d9dd628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:23 +0000
Subject: [PATCH 18/38] fix: NAryZdd rejected every number whose last digit is
 0

---
 apps/ddqueens/NAryZdd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/ddqueens/NAryZdd.hpp b/apps/ddqueens/NAryZdd.hpp
index 48eeb36..497442b 100644
--- a/apps/ddqueens/NAryZdd.hpp
+++ b/apps/ddqueens/NAryZdd.hpp
@@ -53,6 +53,7 @@ public:
         else {
             --level;
             if (oneHot && level % m == 0) return 0;
+            if (level == 0) return -1;
         }
         return level;
     }
-- 
2.43.0


From c81385f99cf999d1dbd9b7b2abc4d37da3f3ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:23 +0000
Subject: [PATCH 19/38] fix: ddnumlin crashed on, or found no solution for,
 boards of one row or column

---
 apps/numberlink/Board.cpp    | 9 ++++-----
 apps/numberlink/ddnumlin.cpp | 7 ++++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/apps/numberlink/Board.cpp b/apps/numberlink/Board.cpp
index 9c1ad09..cde778a 100644
--- a/apps/numberlink/Board.cpp
+++ b/apps/numberlink/Board.cpp
@@ -48,8 +48,7 @@ void Board::init() {
 namespace {
 
 template<typename M>
-M transposed_matrix(M& a) {
-    int rows = a[0].size();
+M transposed_matrix(M& a, int rows) {
     int cols = a.size();
     M b(rows);
     for (int i = 0; i < rows; ++i) {
@@ -64,9 +63,9 @@ M transposed_matrix(M& a) {
 }
 
 void Board::transpose() {
-    number = transposed_matrix(number);
-    std::vector<std::vector<bool> > tmp = transposed_matrix(hlink);
-    hlink = transposed_matrix(vlink);
+    number = transposed_matrix(number, cols);
+    std::vector<std::vector<bool> > tmp = transposed_matrix(hlink, cols - 1);
+    hlink = transposed_matrix(vlink, cols);
     vlink = tmp;
     std::swap(rows, cols);
 }
diff --git a/apps/numberlink/ddnumlin.cpp b/apps/numberlink/ddnumlin.cpp
index f653ed0..6c79dc4 100644
--- a/apps/numberlink/ddnumlin.cpp
+++ b/apps/numberlink/ddnumlin.cpp
@@ -110,7 +110,12 @@ void run() {
     quiz.printNumlin(mh);
 
     bool transposed = false;
-    if (quiz.rows < quiz.cols) {
+    if (quiz.cols == 1) { // no horizontal links
+        mh << "\nThe board is transposed because it has only one column.";
+        quiz.transpose();
+        transposed = true;
+    }
+    else if (1 < quiz.rows && quiz.rows < quiz.cols) {
         mh << "\nThe board is transposed because it has more columns than rows.";
         quiz.transpose();
         transposed = true;
-- 
2.43.0


From 6577119d6c3648aabd2a681f3bc0ec09b5d8f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:23 +0000
Subject: [PATCH 20/38] fix: ddnumlin solved a part of the board when reading
 it failed

---
 apps/numberlink/Board.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/numberlink/Board.cpp b/apps/numberlink/Board.cpp
index cde778a..9452edc 100644
--- a/apps/numberlink/Board.cpp
+++ b/apps/numberlink/Board.cpp
@@ -124,6 +124,8 @@ void Board::readNumbers(std::istream& is) {
         }
         ++j;
     }
+
+    if (is.bad()) throw std::runtime_error("read error");
 }
 
 void Board::writeNumbers(std::ostream& os) const {
-- 
2.43.0


From d930414c40ed6c38709ba03cd3e796175a3b4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:26 +0000
Subject: [PATCH 21/38] fix: cnfbdd dereferences a null pointer when every
 clause is a tautology

With no clause left, from and to are null and to - 1 wraps around.
---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 3109f36..a592f2f 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -191,7 +191,7 @@ void CnfToBdd::prepare() {
 
 void CnfToBdd::makeClauseMap(Clause const* base, Clause const* const * from,
         Clause const* const * to, int k) {
-    for (Clause const* const * p = from; p < to - 1; ++p) {
+    for (Clause const* const * p = from; p + 1 < to; ++p) {
         Clause const* const * q = p + 1;
         int t1 = (**p)[k];
         if (t1 == 0) continue;
-- 
2.43.0


From 5c86e2f702d288d4f9f683d3afa96b8a9c66df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:26 +0000
Subject: [PATCH 22/38] fix: CnfToBdd::badState reads before the start of the
 clause list

Skipping clauses the reachable set does not depend on ran past the last one.
---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index a592f2f..1282e1a 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -484,7 +484,7 @@ bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
                 g = Cudd_NotCond(Cudd_E(g), Cudd_IsComplement(g));
                 if (Cudd_IsConstant(g)) return g == zero;
             }
-            while (int(*t) > Cudd_NodeReadIndex(g)) { // don't care
+            while (t != clauses.rend() && int(*t) > Cudd_NodeReadIndex(g)) { // don't care
                 ++t;
             }
         }
-- 
2.43.0


From 0f4bac1a0d4ba6657805a28a2878e524ca8a9c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:26 +0000
Subject: [PATCH 23/38] fix: cnfbdd -p changes CUDD reference counts from
 several threads

badState made and dropped a Cudd object for the constant; CUDD is not thread-safe.
---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 1282e1a..48cbef0 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -468,7 +468,7 @@ int CnfToBdd::getChild(State& s, int level, int take) {
 }
 
 bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
-    DdNode* zero = Cudd(0).ddNode();
+    DdNode* zero = Cudd_ReadLogicZero(Cudd::manager);
     DdNode* g = frontierSet[level].ddNode();
     if (Cudd_IsConstant(g)) return g == zero;
     std::reverse_iterator<std::vector<uint16_t>::iterator> t = clauses.rbegin();
-- 
2.43.0


From dba09535a83636cf6fc1e5bf5b8186504e2446dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:26 +0000
Subject: [PATCH 24/38] fix: Cudd assignment from a null object dereferences a
 null pointer

abstract1() could not be used: its hash table assigns null objects.
---
 apps/cnfbdd/Cudd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/Cudd.hpp b/apps/cnfbdd/Cudd.hpp
index c04c56a..2084035 100644
--- a/apps/cnfbdd/Cudd.hpp
+++ b/apps/cnfbdd/Cudd.hpp
@@ -95,7 +95,7 @@ public:
     }
 
     Cudd_& operator=(Cudd_ const& o) {
-        Cudd_Ref(o.dd);
+        if (o.dd != 0) Cudd_Ref(o.dd);
         this->~Cudd_();
         dd = o.dd;
         return *this;
-- 
2.43.0


From 8e0c711ddb4c4daca6528936bf80215cc177669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:26 +0000
Subject: [PATCH 25/38] fix: a CNF file cut off in its last clause is accepted

A failed extraction stores 0, which was taken for the end of the clause.
---
 apps/cnf2ztdd2bdd/CnfToZtdd.cpp | 2 +-
 apps/cnfbdd/CnfToBdd.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/cnf2ztdd2bdd/CnfToZtdd.cpp b/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
index 3d49af1..a0b54d9 100644
--- a/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
+++ b/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
@@ -70,7 +70,7 @@ void CnfToZtdd::readDimacs(std::istream& is) {
 
     while (is) {
         int x;
-        is >> x;
+        if (!(is >> x)) break;
 
         if (x == 0) {
             if (!c.empty()) {
diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 48cbef0..5b8e558 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -45,7 +45,7 @@ void CnfToBdd::readDimacs(std::istream& is) {
 
     while (is) {
         int x;
-        is >> x;
+        if (!(is >> x)) break;
 
         if (x == 0) {
             if (!c.empty()) {
-- 
2.43.0


From 2dfc09fc40412e042c63f02afeade42fdea69208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:26 +0000
Subject: [PATCH 26/38] fix: ddnumlin gives wrong answers for labels above 255
 minus the board width

The mate array holds labels offset by the number of columns, in 8 bits.
---
 apps/numberlink/NumlinZdd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/numberlink/NumlinZdd.hpp b/apps/numberlink/NumlinZdd.hpp
index 183d7c7..37f920a 100644
--- a/apps/numberlink/NumlinZdd.hpp
+++ b/apps/numberlink/NumlinZdd.hpp
@@ -28,7 +28,7 @@
 #include <tdzdd/DdSpec.hpp>
 #include "Board.hpp"
 
-class NumlinZdd: public tdzdd::HybridDdSpec<NumlinZdd,uint16_t,uint8_t,2> {
+class NumlinZdd: public tdzdd::HybridDdSpec<NumlinZdd,uint16_t,int,2> {
     Board const& quiz;
     int const max_blank;
     int const m, n, top_level;
-- 
2.43.0


From 7c10c8db0db509b44148c58ce3ee1e1e0ed4aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:20 +0000
Subject: [PATCH 27/38] fix: counting paths of a constant specification leaks
 its root state

---
 include/tdzdd/dd/PathCounter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index 2962336..c2f09bd 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -107,6 +107,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -226,6 +227,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
@@ -331,6 +333,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? 0 : 1;
-- 
2.43.0


From 5131bdfc6e2378fa2fea11330468a64217e8400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:37 +0000
Subject: [PATCH 28/38] fix: counting paths overruns its number storage on
 arity > 2 and on long skips

---
 include/tdzdd/dd/PathCounter.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index c2f09bd..5dee80f 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -76,6 +76,18 @@ class PathCounter {
         return (n + sizeof(Word) - 1) / sizeof(Word);
     }
 
+    /*
+     * Number of extra words needed by a path count after the given number
+     * of levels; each word of BigNumber keeps 63 bits.
+     */
+    static int growthWords(int levels) {
+        int bits = 0;
+        while (bits < 31 && (1L << bits) < Spec::ARITY) {
+            ++bits;
+        }
+        return (int64_t(levels) * bits + 62) / 63;
+    }
+
     static void* state(Word* p) {
         return p;
     }
@@ -113,7 +125,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(growthWords(n) + 1);
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -169,7 +181,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* qq = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                nextWords + growthWords(i - ii));
                         spec.get_copy(state(qq), state(pp));
                         spec.destruct(state(pp));
 
@@ -182,7 +194,7 @@ public:
                             spec.destruct(state(qq));
                             int w = number(qqq).add(number(p));
                             if (numberWords < w) {
-                                numberWords = w; //FIXME might be broken at long skip
+                                numberWords = w;
                             }
                             vnodeTable[ii].pop_front();
                         }
@@ -199,7 +211,7 @@ public:
                             spec.destruct(state(pp));
                             int w = number(ppp).add(number(p));
                             if (numberWords < w) {
-                                numberWords = w; //FIXME might be broken at long skip
+                                numberWords = w;
                             }
                         }
                     }
@@ -233,7 +245,7 @@ public:
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(growthWords(n) + 1);
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -268,7 +280,7 @@ public:
                     else {
                         int w = number(pp).add(number(p));
                         if (numberWords < w) {
-                            numberWords = w; //FIXME might be broken at long skip
+                            numberWords = w;
                         }
                         number(p).store(0);
                     }
@@ -300,7 +312,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* ppp = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                nextWords + growthWords(i - ii));
                         spec.get_copy(state(ppp), state(pp));
                         spec.destruct(state(pp));
                         number(ppp).store(number(p));
-- 
2.43.0


From 49390914f878c7a5a7eb77ba46ddd6321c1ecb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:19 +0000
Subject: [PATCH 29/38] fix: a const MyList cannot be iterated or printed

---
 include/tdzdd/util/MyList.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MyList.hpp b/include/tdzdd/util/MyList.hpp
index 1723816..68d3978 100644
--- a/include/tdzdd/util/MyList.hpp
+++ b/include/tdzdd/util/MyList.hpp
@@ -66,6 +66,10 @@ class MyList {
         return reinterpret_cast<T*>(p + 1);
     }
 
+    static T const* dataStart(Cell const* p) {
+        return reinterpret_cast<T const*>(p + 1);
+    }
+
 public:
     MyList()
             : front_(0), size_(0) {
@@ -235,7 +239,7 @@ public:
         }
 
         T const* operator*() const {
-            return *dataStart(front);
+            return dataStart(front);
         }
 
         T const* operator->() const {
@@ -247,11 +251,11 @@ public:
             return *this;
         }
 
-        bool operator==(iterator const& o) const {
+        bool operator==(const_iterator const& o) const {
             return front == o.front;
         }
 
-        bool operator!=(iterator const& o) const {
+        bool operator!=(const_iterator const& o) const {
             return front != o.front;
         }
     };
-- 
2.43.0


From 9f5ff15ddb4b843a831676abde19dae39f6c21c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:56 +0000
Subject: [PATCH 30/38] fix: MyVector::erase() keeps the wrong elements

---
 include/tdzdd/util/MyVector.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index d62d228..12f3955 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -274,8 +274,8 @@ public:
         assert(array_ <= first && first <= last && last <= array_ + size_);
         Size newSize = size_ - (last - first);
 
-        for (Size i = first - array_; i < newSize; ++i) {
-            array_[i] = last[i];
+        for (T* p = first; p != array_ + newSize; ++p, ++last) {
+            *p = *last;
         }
 
         while (newSize < size_) {
@@ -486,8 +486,7 @@ public:
      */
     iterator erase(iterator pos) {
         assert(begin() <= pos && pos < end());
-        std::memmove(pos, pos + 1, end() - pos - 1);
-        return pos;
+        return erase(pos, pos + 1);
     }
 
     /**
-- 
2.43.0


From db3893e244d1056ef24366e769cac96bfa3b59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:56 +0000
Subject: [PATCH 31/38] fix: MyVector self-assignment loses all elements

---
 include/tdzdd/util/MyVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 12f3955..f3e6095 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -97,6 +97,7 @@ public:
     }
 
     MyVector& operator=(MyVector const& o) {
+        if (this == &o) return *this;
         resize(0);
         reserve(o.size_);
         size_ = o.size_;
-- 
2.43.0


From b05567a12e869811933c52f975ce1565fe8b9268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:56 +0000
Subject: [PATCH 32/38] fix: MyHashTable self-assignment loses all elements

---
 include/tdzdd/util/MyHashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/MyHashTable.hpp b/include/tdzdd/util/MyHashTable.hpp
index 3ab5fdc..4a3fa72 100644
--- a/include/tdzdd/util/MyHashTable.hpp
+++ b/include/tdzdd/util/MyHashTable.hpp
@@ -195,6 +195,7 @@ public:
     }
 
     MyHashTable& operator=(MyHashTable const& o) {
+        if (this == &o) return *this;
         initialize(o.tableSize_);
         for (const_iterator t = o.begin(); t != o.end(); ++t) {
             add(*t);
-- 
2.43.0


From d79c90025211b214f543f2523d7531f0745d914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:56 +0000
Subject: [PATCH 33/38] fix: growing MemoryPools leaves its elements without a
 virtual table

---
 include/tdzdd/util/MemoryPool.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index ccc4947..c25646e 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -232,7 +232,11 @@ typedef MyVector<MemoryPool> MemoryPools;
 template<>
 inline void MyVector<MemoryPool>::moveElement(MemoryPool& from,
         MemoryPool& to) {
-    to.moveFrom(from);
+    if (&from != &to) {
+        new (&to) MemoryPool();
+        to.moveFrom(from);
+        from.~MemoryPool();
+    }
 }
 
 } // namespace tdzdd
-- 
2.43.0


From 6acf146dfbb080931d3ab59dab31967bad2ca4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:56 +0000
Subject: [PATCH 34/38] fix: MemoryPool::reuse() may keep a block of another
 size and overrun it

---
 include/tdzdd/util/MemoryPool.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index c25646e..199370c 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -101,10 +101,13 @@ public:
     }
 
     void reuse() {
-        if (blockList == 0) return;
+        if (nextUnit >= BLOCK_UNITS) { // the first block may have another size
+            clear();
+            return;
+        }
         while (blockList->next != 0) {
-            Unit* block = blockList;
-            blockList = blockList->next;
+            Unit* block = blockList->next;
+            blockList->next = block->next;
             delete[] block;
         }
         nextUnit = 1;
-- 
2.43.0


From 35e9b5484fea15537235803b523c5ff12034b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:30 +0000
Subject: [PATCH 35/38] fix: MySmallSet::add() of an element of a full set
 writes behind the set

---
 include/tdzdd/util/MySet.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index 59a9800..0bdd23c 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -338,18 +338,15 @@ public:
     void add(T const& e) {
         if (N > 0 && size_ >= N - 1) throw std::out_of_range("MySmallSet::add");
         T* pz = array_ + size_;
-        T* p = pz - 1;
-        while (array_ <= p && e <= *p) {
-            if (e == *p) {
-                while (++p < pz) {
-                    *p = *(p + 1);
-                }
-                return;
-            }
-            *(p + 1) = *p;
+        T* p = pz;
+        while (array_ < p && e < *(p - 1)) {
             --p;
         }
-        *(p + 1) = e;
+        if (array_ < p && *(p - 1) == e) return;
+        for (T* q = pz; q != p; --q) {
+            *q = *(q - 1);
+        }
+        *p = e;
         ++size_;
     }
 
-- 
2.43.0


From 36f1e1ec78f606b59d5a3afc06ccb3e7fce0c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:38 +0000
Subject: [PATCH 36/38] fix: a MyVector made from an empty std::vector fails an
 assertion when destroyed

---
 include/tdzdd/util/MyVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index f3e6095..3792252 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -109,7 +109,8 @@ public:
 
     template<typename U>
     MyVector(std::vector<U> const& o)
-            : capacity_(o.size()), size_(o.size()), array_(allocate(capacity_)) {
+            : capacity_(o.size()), size_(o.size()),
+              array_(capacity_ ? allocate(capacity_) : 0) {
         for (Size i = 0; i < size_; ++i) {
             new (array_ + i) T(o[i]);
         }
-- 
2.43.0


From cecf3e8c4258de4923fc1c26f27f7eef8c3b8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 37/38] fix: BigNumber::divide() ignores the divisor,
 FixedBigNumber::divide() fails above 2^31

---
 include/tdzdd/util/BigNumber.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 4e4eba6..b412952 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -177,12 +177,10 @@ public:
             --p;
             uint64_t q = cont ? MSB : 0;
             r = (r << 31) | ((*p & ~MSB) >> 32);
-            lldiv_t d = lldiv(r, 10LL);
-            q += d.quot << 32;
-            r = (d.rem << 32) | (*p & ((uint64_t(1) << 32) - 1));
-            d = lldiv(r, 10LL);
-            q += d.quot;
-            r = d.rem;
+            q += (r / n) << 32;
+            r = ((r % n) << 32) | (*p & ((uint64_t(1) << 32) - 1));
+            q += r / n;
+            r %= n;
             *p = q;
             if (q != 0) cont = true;
         } while (p != array);
@@ -332,9 +330,8 @@ public:
         uint64_t r = 0;
         for (int i = size - 1; i >= 0; --i) {
             r = (r << 32) + val[i];
-            lldiv_t d = lldiv(r, n);
-            val[i] = d.quot;
-            r = d.rem;
+            val[i] = r / n;
+            r %= n;
         }
         return r;
     }
-- 
2.43.0


From b8e3b3fe1a5431a60f5b478fd82eb40356e4d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 38/38] fix: BigNumber::shiftLeft() makes a long zero that
 differs from zero

---
 include/tdzdd/util/BigNumber.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index b412952..6129b43 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -190,6 +190,7 @@ public:
 
     size_t shiftLeft(int k) {
         assert(k >= 0);
+        if (*this == 0) return 1;
         if (k >= 63) {
             int w = k / 63;
             for (uint64_t* q = array + size() - 1; q >= array; --q) {
-- 
2.43.0

