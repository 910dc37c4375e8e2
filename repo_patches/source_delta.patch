From 1c9d6fd122353adff535086583a7a19b05dbbddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:48 +0000
Subject: [PATCH 01/44] fix: destroy the scalar part of hybrid states

HybridDdSpec::destruct() was empty, so a scalar state with a non-trivial
destructor was never destroyed (every copied state leaked).
---
 include/tdzdd/DdSpec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tdzdd/DdSpec.hpp b/include/tdzdd/DdSpec.hpp
index bd21a21..216df11 100644
--- a/include/tdzdd/DdSpec.hpp
+++ b/include/tdzdd/DdSpec.hpp
@@ -614,6 +614,7 @@ public:
     }
 
     void destruct(void* p) {
+        s_state(p).~S_State();
     }
 
     void destructLevel(int level) {
-- 
2.43.0


From cce3f47e49316ab961dc71cedbc4e24f951a9929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:43 +0000
Subject: [PATCH 02/44] fix: delete all-zero nodes in the serial
 quasi-reduction as the other reducers do

---
 include/tdzdd/dd/DdReducer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/dd/DdReducer.hpp b/include/tdzdd/dd/DdReducer.hpp
index 108d694..948a0b9 100644
--- a/include/tdzdd/dd/DdReducer.hpp
+++ b/include/tdzdd/dd/DdReducer.hpp
@@ -239,7 +239,7 @@ private:
             if (f0.row() != 0) f0 = newIdTable[f0.row()][f0.col()];
             if (f1.row() != 0) f1 = newIdTable[f1.row()][f1.col()];
 
-            if ((BDD && f1 == f0) || (ZDD && f1 == 0)) {
+            if ((BDD && f1 == f0) || (f1 == 0 && (ZDD || f0 == 0))) {
                 newId[j] = f0;
             }
             else {
@@ -315,7 +315,7 @@ private:
                 assert(newId[j] == 0);
                 newId[j] = newId[f0.col()];
             }
-            else if ((BDD && f1 == f0) || (ZDD && f1 == 0)) { // forwarded
+            else if ((BDD && f1 == f0) || (f1 == 0 && (ZDD || f0 == 0))) { // forwarded
                 assert(newId[j].row() < i);
             }
             else {
-- 
2.43.0


From b5ffe31e146ed547afcf5ddc23a9875b258356de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:57 +0000
Subject: [PATCH 03/44] fix: build the level index of the parallel reduction
 without data races

---
 include/tdzdd/dd/NodeTable.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 0cf4536..611cf2c 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -264,15 +264,21 @@ public:
 
 #ifdef _OPENMP
             if (useMP) {
-#pragma omp parallel for schedule(static)
-                for (intmax_t j = 0; j < intmax_t(m); ++j) {
-                    for (int b = 0; b < ARITY; ++b) {
-                        int const ii = node[j].branch[b].row();
-                        if (ii == 0) continue;
-                        if (ii < lowest) {
-#pragma omp critical
-                            if (ii < lowest) lowest = ii;
+#pragma omp parallel
+                {
+                    MyVector<bool> found(n + 1); // private to the thread
+
+#pragma omp for schedule(static)
+                    for (intmax_t j = 0; j < intmax_t(m); ++j) {
+                        for (int b = 0; b < ARITY; ++b) {
+                            found[node[j].branch[b].row()] = true;
                         }
+                    }
+
+#pragma omp critical
+                    for (int ii = 1; ii < i; ++ii) {
+                        if (!found[ii]) continue;
+                        if (ii < lowest) lowest = ii;
                         if (!lowerMark[ii]) {
                             myLower[ii] = true;
                             lowerMark[ii] = true;
-- 
2.43.0


From 59bac2a2738eb39c66af20e1c65099ee8391e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:14 +0000
Subject: [PATCH 04/44] fix: write each merged node once in the parallel
 reduction

---
 include/tdzdd/dd/DdReducer.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/tdzdd/dd/DdReducer.hpp b/include/tdzdd/dd/DdReducer.hpp
index 948a0b9..6bf7954 100644
--- a/include/tdzdd/dd/DdReducer.hpp
+++ b/include/tdzdd/dd/DdReducer.hpp
@@ -493,8 +493,11 @@ private:
                                            p->children.branch[0].hasEmpty()); // row += task ID
                         }
                         else {
+                            NodeId const& ff = newIdTable[i][pp->column];
                             newIdTable[i][p->column] =
-                                    newIdTable[i][pp->column];
+                                    NodeId(i + tasks + x,
+                                           ff.col(),
+                                           ff.getAttr()); // duplicate
                         }
                     }
                 }
@@ -537,10 +540,11 @@ private:
             for (size_t j = 0; j < m; ++j) {
                 NodeId& ff = newIdTable[i][j];
                 if (ff.row() >= i) {
-                    ff = NodeId(i,
-                                ff.col() + baseColumn[ff.row() - i],
-                                ff.getAttr());
-                    output[i][ff.col()] = input[i][j];
+                    int x = ff.row() - i;
+                    bool const duplicate = (x >= tasks);
+                    if (duplicate) x -= tasks;
+                    ff = NodeId(i, ff.col() + baseColumn[x], ff.getAttr());
+                    if (!duplicate) output[i][ff.col()] = input[i][j];
                 }
             }
         }
-- 
2.43.0


From 4def3792fa4e7713155f141bc8acd4ced364d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:27 +0000
Subject: [PATCH 05/44] fix: reserve count buffers for the skipped top levels
 in BddCardinality

---
 include/tdzdd/eval/Cardinality.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/eval/Cardinality.hpp b/include/tdzdd/eval/Cardinality.hpp
index a44e675..3a40b66 100644
--- a/include/tdzdd/eval/Cardinality.hpp
+++ b/include/tdzdd/eval/Cardinality.hpp
@@ -107,7 +107,8 @@ public:
         topLevel = level;
         pools.resize(topLevel + 1);
 
-        int max = ceil(double(topLevel) * log2(double(ARITY)) / 63.0) + 1;
+        int n = (BDD && topLevel < numVars) ? numVars : topLevel;
+        int max = ceil(double(n) * log2(double(ARITY)) / 63.0) + 1;
         tmp1.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp2.setArray(pools[topLevel].template allocate<uint64_t>(max));
         tmp3.setArray(pools[topLevel].template allocate<uint64_t>(max));
-- 
2.43.0


From 452ea27ebb9cf325338a6c015ab769379b3bc1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:27 +0000
Subject: [PATCH 06/44] fix: size the path counts by arity and skipped levels,
 and destroy the state of a terminal root

---
 include/tdzdd/dd/PathCounter.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/tdzdd/dd/PathCounter.hpp b/include/tdzdd/dd/PathCounter.hpp
index 2962336..7eda41e 100644
--- a/include/tdzdd/dd/PathCounter.hpp
+++ b/include/tdzdd/dd/PathCounter.hpp
@@ -25,6 +25,7 @@
 #pragma once
 
 #include <cassert>
+#include <cmath>
 #include <ostream>
 #include <stdexcept>
 #include <string>
@@ -76,6 +77,14 @@ class PathCounter {
         return (n + sizeof(Word) - 1) / sizeof(Word);
     }
 
+    /**
+     * Returns the number of words that is sufficient to count
+     * the paths passing through @p k levels.
+     */
+    static int maxNumberWords(int k) {
+        return int(k * log2(double(Spec::ARITY)) / 63.0) + 2;
+    }
+
     static void* state(Word* p) {
         return p;
     }
@@ -107,12 +116,13 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(maxNumberWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -168,7 +178,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* qq = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                stateWords + maxNumberWords(n - ii));
                         spec.get_copy(state(qq), state(pp));
                         spec.destruct(state(pp));
 
@@ -181,7 +191,7 @@ public:
                             spec.destruct(state(qq));
                             int w = number(qqq).add(number(p));
                             if (numberWords < w) {
-                                numberWords = w; //FIXME might be broken at long skip
+                                numberWords = w;
                             }
                             vnodeTable[ii].pop_front();
                         }
@@ -198,7 +208,7 @@ public:
                             spec.destruct(state(pp));
                             int w = number(ppp).add(number(p));
                             if (numberWords < w) {
-                                numberWords = w; //FIXME might be broken at long skip
+                                numberWords = w;
                             }
                         }
                     }
@@ -226,12 +236,13 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? "0" : "1";
         }
 
-        std::vector<uint64_t> totalStorage(n / 63 + 1);
+        std::vector<uint64_t> totalStorage(maxNumberWords(n));
         BigNumber total(totalStorage.data());
         total.store(0);
         size_t maxWidth = 0;
@@ -266,7 +277,7 @@ public:
                     else {
                         int w = number(pp).add(number(p));
                         if (numberWords < w) {
-                            numberWords = w; //FIXME might be broken at long skip
+                            numberWords = w;
                         }
                         number(p).store(0);
                     }
@@ -298,7 +309,7 @@ public:
                     }
                     else if (ii < i - 1) {
                         Word* ppp = vnodeTable[ii].alloc_front(
-                                nextWords + (i - ii) / 63);
+                                stateWords + maxNumberWords(n - ii));
                         spec.get_copy(state(ppp), state(pp));
                         spec.destruct(state(pp));
                         number(ppp).store(number(p));
@@ -331,6 +342,7 @@ public:
         Word* ptmp = tmp.data();
         int const n = spec.get_root(state(ptmp));
         if (n <= 0) {
+            spec.destruct(state(ptmp));
             mh << " ...";
             mh.end(0);
             return (n == 0) ? 0 : 1;
-- 
2.43.0


From 6e65fb2646e52e89a1f81b16a0836f2d4ee61c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:27 +0000
Subject: [PATCH 07/44] fix: make BigNumber::divide use its divisor and keep
 shifted zeros canonical

---
 include/tdzdd/util/BigNumber.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 4e4eba6..75a21b9 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -177,12 +177,10 @@ public:
             --p;
             uint64_t q = cont ? MSB : 0;
             r = (r << 31) | ((*p & ~MSB) >> 32);
-            lldiv_t d = lldiv(r, 10LL);
-            q += d.quot << 32;
-            r = (d.rem << 32) | (*p & ((uint64_t(1) << 32) - 1));
-            d = lldiv(r, 10LL);
-            q += d.quot;
-            r = d.rem;
+            q += (r / n) << 32;
+            r = ((r % n) << 32) | (*p & ((uint64_t(1) << 32) - 1));
+            q += r / n;
+            r %= n;
             *p = q;
             if (q != 0) cont = true;
         } while (p != array);
@@ -192,6 +190,7 @@ public:
 
     size_t shiftLeft(int k) {
         assert(k >= 0);
+        if (operator==(0)) return 1;
         if (k >= 63) {
             int w = k / 63;
             for (uint64_t* q = array + size() - 1; q >= array; --q) {
-- 
2.43.0


From 152c061ffc50faf64141033730e61d235f9c1c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:26 +0000
Subject: [PATCH 08/44] fix: compare diagrams with duplicate nodes by
 structure, not by node position

---
 include/tdzdd/DdStructure.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 950aef8..0656b5d 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -313,8 +313,15 @@ public:
         if (size() > o.size()) return o.operator==(*this);
 
         MyHashMap<InitializedNode<ARITY>,size_t> uniq;
+        DataTable<NodeId> self(n + 1);
         DataTable<NodeId> equiv(n + 1);
         {
+            size_t m = (*diagram)[0].size();
+            self[0].resize(m);
+            for (size_t j = 0; j < m; ++j) {
+                self[0][j] = j;
+            }
+
             size_t om = (*o.diagram)[0].size();
             equiv[0].resize(om);
             for (size_t j = 0; j < om; ++j) {
@@ -324,10 +331,20 @@ public:
 
         for (int i = 1; i <= n; ++i) {
             size_t m = (*diagram)[i].size();
+            self[i].resize(m);
             uniq.initialize(m * 2);
 
             for (size_t j = 0; j < m; ++j) {
-                uniq[(*diagram)[i][j]] = j;
+                InitializedNode<ARITY> node;
+
+                for (int b = 0; b < ARITY; ++b) {
+                    NodeId f = (*diagram)[i][j].branch[b];
+                    node.branch[b] = self[f.row()][f.col()];
+                }
+
+                size_t* p = uniq.getValue(node);
+                if (p == 0) uniq[node] = j;
+                self[i][j] = NodeId(i, (p != 0) ? *p : j);
             }
 
             size_t om = (*o.diagram)[i].size();
@@ -346,7 +363,8 @@ public:
             }
         }
 
-        return root_ == equiv[o.root_.row()][o.root_.col()];
+        return self[root_.row()][root_.col()]
+                == equiv[o.root_.row()][o.root_.col()];
     }
 
     /**
-- 
2.43.0


From c3fb12526208ecb7111fffbe4d0bf2f144064688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:26 +0000
Subject: [PATCH 09/44] fix: keep the node table alive in self-assignment of
 diagrams

---
 include/tdzdd/dd/NodeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/dd/NodeTable.hpp b/include/tdzdd/dd/NodeTable.hpp
index 611cf2c..a12c64a 100644
--- a/include/tdzdd/dd/NodeTable.hpp
+++ b/include/tdzdd/dd/NodeTable.hpp
@@ -442,9 +442,9 @@ public:
     }
 
     NodeTableHandler& operator=(NodeTableHandler const& o) {
+        o.pointer->ref();
         pointer->deref();
         pointer = o.pointer;
-        pointer->ref();
         return *this;
     }
 
-- 
2.43.0


From dd06d7289c34e67e23bd8b8ca5a834bd9f8b0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:26 +0000
Subject: [PATCH 10/44] fix: dumpSapporo of terminal diagrams

---
 include/tdzdd/DdStructure.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/DdStructure.hpp b/include/tdzdd/DdStructure.hpp
index 0656b5d..35abd1b 100644
--- a/include/tdzdd/DdStructure.hpp
+++ b/include/tdzdd/DdStructure.hpp
@@ -762,7 +762,15 @@ public:
             }
         }
 
-        os << nodeId[root_.row()][root_.col()] << "\n";
+        if (root_ == 0) {
+            os << "F\n";
+        }
+        else if (root_ == 1) {
+            os << "T\n";
+        }
+        else {
+            os << nodeId[root_.row()][root_.col()] << "\n";
+        }
         assert(k == l * 2);
     }
 };
-- 
2.43.0


From 9e9871604add553e112da62c1a33c13124575439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:26 +0000
Subject: [PATCH 11/44] fix: read the family of the empty set in GraphillionZdd

---
 include/tdzdd/spec/GraphillionZdd.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/spec/GraphillionZdd.hpp b/include/tdzdd/spec/GraphillionZdd.hpp
index c739368..e0bde56 100644
--- a/include/tdzdd/spec/GraphillionZdd.hpp
+++ b/include/tdzdd/spec/GraphillionZdd.hpp
@@ -86,7 +86,8 @@ public:
 private:
     void read(std::istream& is) {
         while (is) {
-            if (isdigit(skipSpace(is))) {
+            int c = skipSpace(is);
+            if (isdigit(c)) {
                 uint64_t id;
                 Node node;
 
@@ -97,6 +98,9 @@ private:
 
                 addNode(id, node);
             }
+            else if ((c == 'T' || c == 't') && table.empty()) {
+                root = 1;
+            }
             skipLine(is);
         }
     }
-- 
2.43.0


From 70639fef21ea497e5a4e0c2dfc377fe19acc9172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:54 +0000
Subject: [PATCH 12/44] fix: initialize both states of a binary operation even
 if one operand is constant

---
 include/tdzdd/op/BinaryOperation.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index 9650a41..ba61859 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -171,9 +171,8 @@ struct BddAnd_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 == 0) return 0;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -241,9 +240,8 @@ struct BddOr_
 
     int getRoot(Word* p) {
         int i1 = base::spec1.get_root(base::state1(p));
-        if (i1 < 0) return -1;
         int i2 = base::spec2.get_root(base::state2(p));
-        if (i2 < 0) return -1;
+        if (i1 < 0 || i2 < 0) return -1;
         base::setLevel1(p, i1);
         base::setLevel2(p, i2);
         return std::max(base::level1(p), base::level2(p));
@@ -345,9 +343,8 @@ public:
 
     int getRoot(Word* p) {
         int i1 = spec1.get_root(state1(p));
-        if (i1 == 0) return 0;
         int i2 = spec2.get_root(state2(p));
-        if (i2 == 0) return 0;
+        if (i1 == 0 || i2 == 0) return 0;
 
         while (i1 != i2) {
             if (i1 > i2) {
-- 
2.43.0


From 9d752ac8fbdd297e72658dca6fc52755330e3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:46 +0000
Subject: [PATCH 13/44] fix: dumping an intersection of three or more specs did
 not compile

---
 include/tdzdd/op/BinaryOperation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/op/BinaryOperation.hpp b/include/tdzdd/op/BinaryOperation.hpp
index ba61859..2d6019c 100644
--- a/include/tdzdd/op/BinaryOperation.hpp
+++ b/include/tdzdd/op/BinaryOperation.hpp
@@ -289,7 +289,7 @@ struct ZddIntersection_: public ZddIntersection_<S,S1,ZddIntersection<SS...>> {
 
     void print_state(std::ostream& os, void const* p, int level) const {
         Word const* q = static_cast<Word const*>(p);
-        os << "<" << base::level1(q) << ",";
+        os << "<";
         base::spec1.print_state(os, base::state1(q), level);
         os << ">∩";
         base::spec2.print_state(os, base::state2(q), level);
-- 
2.43.0


From afe8175cc166265c1407a3fdf16e1b61c4397986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 14/44] fix: read the last edge of a file that does not end
 with a newline

---
 include/tdzdd/util/Graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index ce77e6c..37b5c92 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -172,7 +172,8 @@ private:
         std::string v, v1, v2;
 
         while (is) {
-            char c = is.get();
+            int c = is.get();
+            if (!is) c = '\n'; // end of the last line
 
             if (isspace(c)) {
                 if (!v.empty()) {
-- 
2.43.0


From 013a11cd01889bc9ce9affede37a9b804cc5d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 15/44] fix: reject malformed vertex numbers instead of reading
 them as 0

---
 include/tdzdd/util/Graph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index 37b5c92..e231942 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -231,7 +231,8 @@ private:
             }
             if (!is) break;
             is.unget();
-            is >> v2;
+            if (!(is >> v2)) throw std::runtime_error(
+                    "ERROR: Illegal vertex number");
 
             edgeNames.push_back(std::make_pair(to_string(v1), to_string(v2)));
         }
@@ -254,7 +255,8 @@ private:
             is.unget();
 
             VertexNumber v;
-            is >> v;
+            if (!(is >> v)) throw std::runtime_error(
+                    "ERROR: Illegal vertex number");
 
             name2color[to_string(v)] = color;
         }
-- 
2.43.0


From e08d026fb04fd7fa36e58255ee09178d80ab9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 16/44] fix: initialize Graph and recompute all color
 information in clearColors

---
 include/tdzdd/util/Graph.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tdzdd/util/Graph.hpp b/include/tdzdd/util/Graph.hpp
index e231942..e573ce9 100644
--- a/include/tdzdd/util/Graph.hpp
+++ b/include/tdzdd/util/Graph.hpp
@@ -98,6 +98,10 @@ private:
     bool hasColorPairs_;
 
 public:
+    Graph()
+            : vMax(0), numColor_(0), hasColorPairs_(false) {
+    }
+
     void addEdge(std::string vertexName1, std::string vertexName2) {
         edgeNames.push_back(std::make_pair(vertexName1, vertexName2));
     }
@@ -585,11 +589,7 @@ public:
 
     void clearColors() {
         name2color.clear();
-        virtualMate_.clear();
-        virtualMate_.resize(vMax + 1);
-        colorNumber_.clear();
-        colorNumber_.resize(vMax + 1);
-        numColor_ = 0;
+        update();
     }
 
     void setDefaultPathColor() {
-- 
2.43.0


From 5773051a64e1da61bb78f0293cd8881a3d10f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 17/44] fix: graph specs for graphs without edges

---
 include/tdzdd/spec/DegreeConstraint.hpp    | 2 +-
 include/tdzdd/spec/FrontierBasedSearch.hpp | 1 +
 include/tdzdd/spec/PathZdd.hpp             | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/spec/DegreeConstraint.hpp b/include/tdzdd/spec/DegreeConstraint.hpp
index 765c970..57ba66f 100644
--- a/include/tdzdd/spec/DegreeConstraint.hpp
+++ b/include/tdzdd/spec/DegreeConstraint.hpp
@@ -93,7 +93,7 @@ public:
         for (int k = 0; k < mateSize; ++k) {
             mate[k] = 0;
         }
-        return n;
+        return (n > 0) ? n : -1;
     }
 
     int getChild(Mate* mate, int level, int take) const {
diff --git a/include/tdzdd/spec/FrontierBasedSearch.hpp b/include/tdzdd/spec/FrontierBasedSearch.hpp
index 4ec9ef7..74d2d02 100644
--- a/include/tdzdd/spec/FrontierBasedSearch.hpp
+++ b/include/tdzdd/spec/FrontierBasedSearch.hpp
@@ -433,6 +433,7 @@ public:
     }
 
     int getRoot(Count& count, Mate* mate) const {
+        if (n == 0) return (numUEC <= 0) ? -1 : 0;
         int const v0 = graph.edgeInfo(0).v0;
 
         count = Count(numUEC);
diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 6eac119..36d66b3 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -150,6 +150,7 @@ public:
     }
 
     int getRoot(Mate* mate) const {
+        if (n == 0) return 0;
         int const v0 = graph.edgeInfo(0).v0;
 
         for (int k = 0; k < mateArraySize_; ++k) {
-- 
2.43.0


From cf96938afa019429ab15680ba15a65d6a84858c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:49 +0000
Subject: [PATCH 18/44] fix: Hamiltonian paths and cycles must visit every
 vertex, also outside the frontier window

---
 include/tdzdd/spec/PathZdd.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 36d66b3..72eb939 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -81,7 +81,7 @@ private:
                 if (w1 != w2) return NO;
                 if (!e.allColorsSeen) return YES;
 
-                bool clean = true;
+                bool clean = !hamilton || e.v0 + mateArraySize_ > m;
                 for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
@@ -96,7 +96,8 @@ private:
             if (w1 == e.v2) {
                 assert(w2 == e.v1);
 
-                for (int k = 1; k < mateArraySize_; ++k) {
+                if (hamilton && e.v0 + mateArraySize_ <= m) return NO;
+                for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
                     int w = mate[k];
-- 
2.43.0


From 157e760081b2f1a022d3b86e02a320202f0f9686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:32 +0000
Subject: [PATCH 19/44] fix: make MyList iterable and printable through a const
 reference

---
 include/tdzdd/util/MyList.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/MyList.hpp b/include/tdzdd/util/MyList.hpp
index 1723816..68d3978 100644
--- a/include/tdzdd/util/MyList.hpp
+++ b/include/tdzdd/util/MyList.hpp
@@ -66,6 +66,10 @@ class MyList {
         return reinterpret_cast<T*>(p + 1);
     }
 
+    static T const* dataStart(Cell const* p) {
+        return reinterpret_cast<T const*>(p + 1);
+    }
+
 public:
     MyList()
             : front_(0), size_(0) {
@@ -235,7 +239,7 @@ public:
         }
 
         T const* operator*() const {
-            return *dataStart(front);
+            return dataStart(front);
         }
 
         T const* operator->() const {
@@ -247,11 +251,11 @@ public:
             return *this;
         }
 
-        bool operator==(iterator const& o) const {
+        bool operator==(const_iterator const& o) const {
             return front == o.front;
         }
 
-        bool operator!=(iterator const& o) const {
+        bool operator!=(const_iterator const& o) const {
             return front != o.front;
         }
     };
-- 
2.43.0


From 2934ce445716d42d436e0724882889263a6357fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:21 +0000
Subject: [PATCH 20/44] fix: erase the right elements in MyVector

---
 include/tdzdd/util/MyVector.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index d62d228..23a9a6d 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -274,8 +274,8 @@ public:
         assert(array_ <= first && first <= last && last <= array_ + size_);
         Size newSize = size_ - (last - first);
 
-        for (Size i = first - array_; i < newSize; ++i) {
-            array_[i] = last[i];
+        for (T* p = first; last != array_ + size_; ++p, ++last) {
+            *p = *last;
         }
 
         while (newSize < size_) {
@@ -486,8 +486,7 @@ public:
      */
     iterator erase(iterator pos) {
         assert(begin() <= pos && pos < end());
-        std::memmove(pos, pos + 1, end() - pos - 1);
-        return pos;
+        return erase(pos, pos + 1);
     }
 
     /**
-- 
2.43.0


From 867e2157add7ddbca1caea89c2ba531b4a84295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:21 +0000
Subject: [PATCH 21/44] fix: keep the elements in self-assignment of containers

---
 include/tdzdd/util/MyHashTable.hpp | 1 +
 include/tdzdd/util/MyVector.hpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/tdzdd/util/MyHashTable.hpp b/include/tdzdd/util/MyHashTable.hpp
index 1a1e8e9..84a54a0 100644
--- a/include/tdzdd/util/MyHashTable.hpp
+++ b/include/tdzdd/util/MyHashTable.hpp
@@ -195,6 +195,7 @@ public:
     }
 
     MyHashTable& operator=(MyHashTable const& o) {
+        if (this == &o) return *this;
         initialize(o.tableSize_);
         for (const_iterator t = o.begin(); t != o.end(); ++t) {
             add(*t);
diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index 23a9a6d..c8e36d8 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -97,6 +97,7 @@ public:
     }
 
     MyVector& operator=(MyVector const& o) {
+        if (this == &o) return *this;
         resize(0);
         reserve(o.size_);
         size_ = o.size_;
-- 
2.43.0


From 3e06761eed188a243e72f9e0d4b21546ad2175b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:21 +0000
Subject: [PATCH 22/44] fix: MyVector from an empty std::vector

---
 include/tdzdd/util/MyVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tdzdd/util/MyVector.hpp b/include/tdzdd/util/MyVector.hpp
index c8e36d8..c900943 100644
--- a/include/tdzdd/util/MyVector.hpp
+++ b/include/tdzdd/util/MyVector.hpp
@@ -109,7 +109,8 @@ public:
 
     template<typename U>
     MyVector(std::vector<U> const& o)
-            : capacity_(o.size()), size_(o.size()), array_(allocate(capacity_)) {
+            : capacity_(o.size()), size_(o.size()),
+              array_(capacity_ ? allocate(capacity_) : 0) {
         for (Size i = 0; i < size_; ++i) {
             new (array_ + i) T(o[i]);
         }
-- 
2.43.0


From 24d801a6e75a8898d670839322ddc10c8a113ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:21 +0000
Subject: [PATCH 23/44] fix: MyBitSet::pullout shifted the wrong elements and
 ran past the last word

---
 include/tdzdd/util/MySet.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index 59a9800..cd33b73 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -119,12 +119,12 @@ public:
     void pullout(size_t i) {
         size_t k = i / 64;
         uint64_t* p = &word(k);
-        uint64_t* q = p + numWords();
-        uint64_t m = mask(i % 64 + 1) - 1;
-        *p = (*p & ~m) | ((*p << 1) & m);
+        uint64_t* q = &word(0) + numWords();
+        uint64_t m = mask(i % 64) - 1;
+        *p = (*p & m) | ((*p >> 1) & ~m);
         while (++p < q) {
-            *(p - 1) |= *p >> 63;
-            *p <<= 1;
+            *(p - 1) |= *p << 63;
+            *p >>= 1;
         }
     }
 
-- 
2.43.0


From 51911f2f048829ad261fc41a2379bc5769d4a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:21 +0000
Subject: [PATCH 24/44] fix: adding a present element to a full MySmallSet

---
 include/tdzdd/util/MySet.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/tdzdd/util/MySet.hpp b/include/tdzdd/util/MySet.hpp
index cd33b73..348b5f8 100644
--- a/include/tdzdd/util/MySet.hpp
+++ b/include/tdzdd/util/MySet.hpp
@@ -336,20 +336,14 @@ public:
 //        ++size_;
 //    }
     void add(T const& e) {
-        if (N > 0 && size_ >= N - 1) throw std::out_of_range("MySmallSet::add");
         T* pz = array_ + size_;
-        T* p = pz - 1;
-        while (array_ <= p && e <= *p) {
-            if (e == *p) {
-                while (++p < pz) {
-                    *p = *(p + 1);
-                }
-                return;
-            }
-            *(p + 1) = *p;
-            --p;
+        T* p = std::lower_bound(array_, pz, e);
+        if (p != pz && *p == e) return;
+        if (N > 0 && size_ >= N - 1) throw std::out_of_range("MySmallSet::add");
+        for (T* q = pz; q != p; --q) {
+            *q = *(q - 1);
         }
-        *(p + 1) = e;
+        *p = e;
         ++size_;
     }
 
-- 
2.43.0


From 6322124e15d76569ff095d792836b5f4ef11deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:21 +0000
Subject: [PATCH 25/44] fix: do not reuse an oversized block of MemoryPool as a
 regular one

---
 include/tdzdd/util/MemoryPool.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index ccc4947..3b4569b 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -102,9 +102,13 @@ public:
 
     void reuse() {
         if (blockList == 0) return;
+        if (nextUnit >= BLOCK_UNITS) { // the first block may be of another size
+            clear();
+            return;
+        }
         while (blockList->next != 0) {
-            Unit* block = blockList;
-            blockList = blockList->next;
+            Unit* block = blockList->next;
+            blockList->next = block->next;
             delete[] block;
         }
         nextUnit = 1;
-- 
2.43.0


From 77dec20090a3c99b3103a7b794dfbbe6c15a496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:21 +0000
Subject: [PATCH 26/44] fix: construct memory pools before moving them within a
 vector

---
 include/tdzdd/util/MemoryPool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tdzdd/util/MemoryPool.hpp b/include/tdzdd/util/MemoryPool.hpp
index 3b4569b..8b1fe2e 100644
--- a/include/tdzdd/util/MemoryPool.hpp
+++ b/include/tdzdd/util/MemoryPool.hpp
@@ -81,6 +81,7 @@ public:
         blockList = o.blockList;
         nextUnit = o.nextUnit;
         o.blockList = 0;
+        o.nextUnit = BLOCK_UNITS;
     }
 
     virtual ~MemoryPool() {
@@ -236,7 +237,9 @@ typedef MyVector<MemoryPool> MemoryPools;
 template<>
 inline void MyVector<MemoryPool>::moveElement(MemoryPool& from,
         MemoryPool& to) {
+    new (&to) MemoryPool();
     to.moveFrom(from);
+    from.~MemoryPool();
 }
 
 } // namespace tdzdd
-- 
2.43.0


From b71d2369e7b4a006e528d156917e1bf06006d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:21 +0000
Subject: [PATCH 27/44] fix: FixedBigNumber::divide by a number of 2^31 or more

---
 include/tdzdd/util/BigNumber.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/util/BigNumber.hpp b/include/tdzdd/util/BigNumber.hpp
index 75a21b9..6041063 100644
--- a/include/tdzdd/util/BigNumber.hpp
+++ b/include/tdzdd/util/BigNumber.hpp
@@ -331,9 +331,8 @@ public:
         uint64_t r = 0;
         for (int i = size - 1; i >= 0; --i) {
             r = (r << 32) + val[i];
-            lldiv_t d = lldiv(r, n);
-            val[i] = d.quot;
-            r = d.rem;
+            val[i] = r / n;
+            r %= n;
         }
         return r;
     }
-- 
2.43.0


From 44b632d945029caee8e1a46606f9dcc5ceb648c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:21 +0000
Subject: [PATCH 28/44] fix: IntRange::contains for ranges wider than INT_MAX

---
 include/tdzdd/util/IntSubset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/util/IntSubset.hpp b/include/tdzdd/util/IntSubset.hpp
index d4038a8..ce40759 100644
--- a/include/tdzdd/util/IntSubset.hpp
+++ b/include/tdzdd/util/IntSubset.hpp
@@ -55,7 +55,7 @@ public:
 
     bool contains(int x) const {
         if (x < min || max < x) return false;
-        return (x - min) % step == 0;
+        return ((long long) x - min) % step == 0;
     }
 
     int lowerBound() const {
-- 
2.43.0


From 587f9478a60d18572b3044df4ac21b4b60dcd6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:46 +0000
Subject: [PATCH 29/44] fix: numberlink: Board::transpose must not read the
 first row of an empty link matrix

---
 apps/numberlink/Board.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/apps/numberlink/Board.cpp b/apps/numberlink/Board.cpp
index 9c1ad09..cde778a 100644
--- a/apps/numberlink/Board.cpp
+++ b/apps/numberlink/Board.cpp
@@ -48,8 +48,7 @@ void Board::init() {
 namespace {
 
 template<typename M>
-M transposed_matrix(M& a) {
-    int rows = a[0].size();
+M transposed_matrix(M& a, int rows) {
     int cols = a.size();
     M b(rows);
     for (int i = 0; i < rows; ++i) {
@@ -64,9 +63,9 @@ M transposed_matrix(M& a) {
 }
 
 void Board::transpose() {
-    number = transposed_matrix(number);
-    std::vector<std::vector<bool> > tmp = transposed_matrix(hlink);
-    hlink = transposed_matrix(vlink);
+    number = transposed_matrix(number, cols);
+    std::vector<std::vector<bool> > tmp = transposed_matrix(hlink, cols - 1);
+    hlink = transposed_matrix(vlink, cols);
     vlink = tmp;
     std::swap(rows, cols);
 }
-- 
2.43.0


From a0111155752fbad648a9681a78ea2b1c5762691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:46 +0000
Subject: [PATCH 30/44] fix: numberlink: boards with a single column have
 solutions too

---
 apps/numberlink/Board.cpp    | 3 ++-
 apps/numberlink/ddnumlin.cpp | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/apps/numberlink/Board.cpp b/apps/numberlink/Board.cpp
index cde778a..adf57d0 100644
--- a/apps/numberlink/Board.cpp
+++ b/apps/numberlink/Board.cpp
@@ -100,7 +100,8 @@ void Board::readNumbers(std::istream& is) {
         is >> rows;
     }
 
-    if (cols < 1 || rows < 1) throw std::runtime_error("illegal size");
+    if (cols < 1 || rows < 1 || (cols == 1 && rows == 1))
+        throw std::runtime_error("illegal size");
 
     init();
 
diff --git a/apps/numberlink/ddnumlin.cpp b/apps/numberlink/ddnumlin.cpp
index f653ed0..9446ce1 100644
--- a/apps/numberlink/ddnumlin.cpp
+++ b/apps/numberlink/ddnumlin.cpp
@@ -110,7 +110,12 @@ void run() {
     quiz.printNumlin(mh);
 
     bool transposed = false;
-    if (quiz.rows < quiz.cols) {
+    if (quiz.cols == 1) {
+        mh << "\nThe board is transposed because it has only one column.";
+        quiz.transpose();
+        transposed = true;
+    }
+    else if (1 < quiz.rows && quiz.rows < quiz.cols) {
         mh << "\nThe board is transposed because it has more columns than rows.";
         quiz.transpose();
         transposed = true;
-- 
2.43.0


From 521f7824b695abbd0ac8c5c6c184331106f5735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:46 +0000
Subject: [PATCH 31/44] fix: numberlink: reject numbers that do not fit in the
 8-bit connection states

---
 apps/numberlink/NumlinZdd.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/numberlink/NumlinZdd.hpp b/apps/numberlink/NumlinZdd.hpp
index 183d7c7..60150b2 100644
--- a/apps/numberlink/NumlinZdd.hpp
+++ b/apps/numberlink/NumlinZdd.hpp
@@ -23,6 +23,7 @@
 #pragma once
 
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 #include <tdzdd/DdSpec.hpp>
@@ -45,6 +46,13 @@ public:
                     m(quiz.rows),
                     n(quiz.cols),
                     top_level(m * (n - 1)) {
+        if (n > 255) throw std::runtime_error("too many columns");
+        for (int i = 0; i < m; ++i) {
+            for (int j = 0; j < n; ++j) {
+                if (quiz.number[i][j] > 255 - n) // A_State is 8 bits wide
+                    throw std::runtime_error("too large number");
+            }
+        }
         setArraySize(quiz.cols);
     }
 
-- 
2.43.0


From 6cbd420eb55bf60208d652e17c1ae89dd253d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:31 +0000
Subject: [PATCH 32/44] fix: PathZddByStdMap counted paths joining terminals of
 different pairs when there were several pairs

---
 include/tdzdd/spec/PathZddByStdMap.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/tdzdd/spec/PathZddByStdMap.hpp b/include/tdzdd/spec/PathZddByStdMap.hpp
index ab18bf1..828e519 100644
--- a/include/tdzdd/spec/PathZddByStdMap.hpp
+++ b/include/tdzdd/spec/PathZddByStdMap.hpp
@@ -45,8 +45,8 @@ public:
 
     int getRoot(State& mate) const {
         for (Graph::VertexNumber v = 1; v <= graph.vertexSize(); ++v) {
-            Graph::VertexNumber w = graph.virtualMate(v);
-            if (w >= 1) mate[v] = w;
+            int c = graph.colorNumber(v);
+            if (c > 0) mate[v] = -c;
         }
         return n;
     }
@@ -67,8 +67,9 @@ public:
             if (e.v1final && u1) return 0;
             if (e.v2final && u2) return 0;
 
-            if (w1 == v2) {
+            if (w1 == v2) { // cycle
                 assert(w2 == v1);
+                if (graph.numColor() > 0) return 0;
                 for (State::const_iterator t = mate.begin(); t != mate.end();
                         ++t) {
                     if (t->first != v1 && t->first != v2 && t->second > 0) return 0;
@@ -77,7 +78,20 @@ public:
             }
 
             mate[v1] = mate[v2] = 0;
-            mate[w1] = w2, mate[w2] = w1;
+            if (w1 > 0) mate[w1] = w2;
+            if (w2 > 0) mate[w2] = w1;
+
+            if (w1 < 0 && w2 < 0) { // path between colored vertices
+                if (w1 != w2) return 0;
+                bool open = false;
+                bool done = true;
+                for (State::const_iterator t = mate.begin(); t != mate.end();
+                        ++t) {
+                    if (t->second > 0) open = true;
+                    if (t->second < 0) done = false;
+                }
+                if (done) return open ? 0 : -1;
+            }
         }
 
         if (e.v1final && !u1) {
-- 
2.43.0


From b0b568d87d945365d1c5b0685ec9c48acc74b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 33/44] Revert "fix: PathZddByStdMap counted paths joining
 terminals of different pairs when there were several pairs"

This reverts commit 6cbd420eb55bf60208d652e17c1ae89dd253d1a4.
---
 include/tdzdd/spec/PathZddByStdMap.hpp | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/include/tdzdd/spec/PathZddByStdMap.hpp b/include/tdzdd/spec/PathZddByStdMap.hpp
index 828e519..ab18bf1 100644
--- a/include/tdzdd/spec/PathZddByStdMap.hpp
+++ b/include/tdzdd/spec/PathZddByStdMap.hpp
@@ -45,8 +45,8 @@ public:
 
     int getRoot(State& mate) const {
         for (Graph::VertexNumber v = 1; v <= graph.vertexSize(); ++v) {
-            int c = graph.colorNumber(v);
-            if (c > 0) mate[v] = -c;
+            Graph::VertexNumber w = graph.virtualMate(v);
+            if (w >= 1) mate[v] = w;
         }
         return n;
     }
@@ -67,9 +67,8 @@ public:
             if (e.v1final && u1) return 0;
             if (e.v2final && u2) return 0;
 
-            if (w1 == v2) { // cycle
+            if (w1 == v2) {
                 assert(w2 == v1);
-                if (graph.numColor() > 0) return 0;
                 for (State::const_iterator t = mate.begin(); t != mate.end();
                         ++t) {
                     if (t->first != v1 && t->first != v2 && t->second > 0) return 0;
@@ -78,20 +77,7 @@ public:
             }
 
             mate[v1] = mate[v2] = 0;
-            if (w1 > 0) mate[w1] = w2;
-            if (w2 > 0) mate[w2] = w1;
-
-            if (w1 < 0 && w2 < 0) { // path between colored vertices
-                if (w1 != w2) return 0;
-                bool open = false;
-                bool done = true;
-                for (State::const_iterator t = mate.begin(); t != mate.end();
-                        ++t) {
-                    if (t->second > 0) open = true;
-                    if (t->second < 0) done = false;
-                }
-                if (done) return open ? 0 : -1;
-            }
+            mate[w1] = w2, mate[w2] = w1;
         }
 
         if (e.v1final && !u1) {
-- 
2.43.0


From eea2dc2ba3a317eeeee12da1355835c4aa3ff4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 34/44] Revert "fix: Hamiltonian paths and cycles must visit
 every vertex, also outside the frontier window"

This reverts commit cf96938afa019429ab15680ba15a65d6a84858c9.
---
 include/tdzdd/spec/PathZdd.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 72eb939..36d66b3 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -81,7 +81,7 @@ private:
                 if (w1 != w2) return NO;
                 if (!e.allColorsSeen) return YES;
 
-                bool clean = !hamilton || e.v0 + mateArraySize_ > m;
+                bool clean = true;
                 for (int k = 0; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
@@ -96,8 +96,7 @@ private:
             if (w1 == e.v2) {
                 assert(w2 == e.v1);
 
-                if (hamilton && e.v0 + mateArraySize_ <= m) return NO;
-                for (int k = 0; k < mateArraySize_; ++k) {
+                for (int k = 1; k < mateArraySize_; ++k) {
                     if (e.v0 + k == e.v1) continue;
                     if (e.v0 + k == e.v2) continue;
                     int w = mate[k];
-- 
2.43.0


From 7a44022ca24b7e6cdbe79328d7ba3d88c3ff0b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 35/44] Revert "fix: graph specs for graphs without edges"

This reverts commit 5773051a64e1da61bb78f0293cd8881a3d10f56a.
---
 include/tdzdd/spec/DegreeConstraint.hpp    | 2 +-
 include/tdzdd/spec/FrontierBasedSearch.hpp | 1 -
 include/tdzdd/spec/PathZdd.hpp             | 1 -
 3 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/tdzdd/spec/DegreeConstraint.hpp b/include/tdzdd/spec/DegreeConstraint.hpp
index 57ba66f..765c970 100644
--- a/include/tdzdd/spec/DegreeConstraint.hpp
+++ b/include/tdzdd/spec/DegreeConstraint.hpp
@@ -93,7 +93,7 @@ public:
         for (int k = 0; k < mateSize; ++k) {
             mate[k] = 0;
         }
-        return (n > 0) ? n : -1;
+        return n;
     }
 
     int getChild(Mate* mate, int level, int take) const {
diff --git a/include/tdzdd/spec/FrontierBasedSearch.hpp b/include/tdzdd/spec/FrontierBasedSearch.hpp
index 74d2d02..4ec9ef7 100644
--- a/include/tdzdd/spec/FrontierBasedSearch.hpp
+++ b/include/tdzdd/spec/FrontierBasedSearch.hpp
@@ -433,7 +433,6 @@ public:
     }
 
     int getRoot(Count& count, Mate* mate) const {
-        if (n == 0) return (numUEC <= 0) ? -1 : 0;
         int const v0 = graph.edgeInfo(0).v0;
 
         count = Count(numUEC);
diff --git a/include/tdzdd/spec/PathZdd.hpp b/include/tdzdd/spec/PathZdd.hpp
index 36d66b3..6eac119 100644
--- a/include/tdzdd/spec/PathZdd.hpp
+++ b/include/tdzdd/spec/PathZdd.hpp
@@ -150,7 +150,6 @@ public:
     }
 
     int getRoot(Mate* mate) const {
-        if (n == 0) return 0;
         int const v0 = graph.edgeInfo(0).v0;
 
         for (int k = 0; k < mateArraySize_; ++k) {
-- 
2.43.0


From 88d15cd8039bb1d373b59eeca11dc1888fd89018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 36/44] Revert "fix: read the family of the empty set in
 GraphillionZdd"

This reverts commit 9e9871604add553e112da62c1a33c13124575439.
---
 include/tdzdd/spec/GraphillionZdd.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/tdzdd/spec/GraphillionZdd.hpp b/include/tdzdd/spec/GraphillionZdd.hpp
index e0bde56..c739368 100644
--- a/include/tdzdd/spec/GraphillionZdd.hpp
+++ b/include/tdzdd/spec/GraphillionZdd.hpp
@@ -86,8 +86,7 @@ public:
 private:
     void read(std::istream& is) {
         while (is) {
-            int c = skipSpace(is);
-            if (isdigit(c)) {
+            if (isdigit(skipSpace(is))) {
                 uint64_t id;
                 Node node;
 
@@ -98,9 +97,6 @@ private:
 
                 addNode(id, node);
             }
-            else if ((c == 'T' || c == 't') && table.empty()) {
-                root = 1;
-            }
             skipLine(is);
         }
     }
-- 
2.43.0


From 826ccbab5f1e938c622fc242b30b10a8fb4041d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:38 +0000
Subject: [PATCH 37/44] fix: clear the padding of array states, which is hashed
 and compared

---
 include/tdzdd/DdSpec.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/DdSpec.hpp b/include/tdzdd/DdSpec.hpp
index 216df11..ec04746 100644
--- a/include/tdzdd/DdSpec.hpp
+++ b/include/tdzdd/DdSpec.hpp
@@ -415,6 +415,8 @@ public:
     }
 
     int get_root(void* p) {
+        // padding in the last word takes part in hashing and comparison
+        if (dataWords > 0) static_cast<Word*>(p)[dataWords - 1] = 0;
         return this->entity().getRoot(state(p));
     }
 
@@ -580,6 +582,8 @@ public:
 
     int get_root(void* p) {
         this->entity().construct(p);
+        // padding in the last word takes part in hashing and comparison
+        if (dataWords > S_WORDS) static_cast<Word*>(p)[dataWords - 1] = 0;
         return this->entity().getRoot(s_state(p), a_state(p));
     }
 
-- 
2.43.0


From a256a888a75386ed11626d896a45e9eae93e845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:48 +0000
Subject: [PATCH 38/44] fix: do not read before the clause list in cnfbdd's
 badState()

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 3109f36..55e97a7 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -484,7 +484,7 @@ bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
                 g = Cudd_NotCond(Cudd_E(g), Cudd_IsComplement(g));
                 if (Cudd_IsConstant(g)) return g == zero;
             }
-            while (int(*t) > Cudd_NodeReadIndex(g)) { // don't care
+            while (t != clauses.rend() && int(*t) > Cudd_NodeReadIndex(g)) { // don't care
                 ++t;
             }
         }
-- 
2.43.0


From fbf66842688c7ce546d28358daff482c2e081463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:48 +0000
Subject: [PATCH 39/44] fix: cnfbdd crashed when every clause is a tautology

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 55e97a7..1eb69a7 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -191,7 +191,7 @@ void CnfToBdd::prepare() {
 
 void CnfToBdd::makeClauseMap(Clause const* base, Clause const* const * from,
         Clause const* const * to, int k) {
-    for (Clause const* const * p = from; p < to - 1; ++p) {
+    for (Clause const* const * p = from; to - p > 1; ++p) {
         Clause const* const * q = p + 1;
         int t1 = (**p)[k];
         if (t1 == 0) continue;
-- 
2.43.0


From 959c606009d9d7f65b61101a813d7f8c844e2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:48 +0000
Subject: [PATCH 40/44] fix: the CNF readers used an uninitialised variable at
 the end of the input

---
 apps/cnf2ztdd2bdd/CnfToZtdd.cpp | 2 +-
 apps/cnfbdd/CnfToBdd.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/cnf2ztdd2bdd/CnfToZtdd.cpp b/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
index 3d49af1..fd31952 100644
--- a/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
+++ b/apps/cnf2ztdd2bdd/CnfToZtdd.cpp
@@ -69,7 +69,7 @@ void CnfToZtdd::readDimacs(std::istream& is) {
     int mm = 0;
 
     while (is) {
-        int x;
+        int x = 0; // ends the last clause at the end of the input
         is >> x;
 
         if (x == 0) {
diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index 1eb69a7..d623ae1 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -44,7 +44,7 @@ void CnfToBdd::readDimacs(std::istream& is) {
     int mm = 0;
 
     while (is) {
-        int x;
+        int x = 0; // ends the last clause at the end of the input
         is >> x;
 
         if (x == 0) {
-- 
2.43.0


From 9a9a2bbc160929c55d0489cc2c93adc5f6afb6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:48 +0000
Subject: [PATCH 41/44] fix: cnfbdd -p modified CUDD reference counts
 concurrently

---
 apps/cnfbdd/CnfToBdd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/CnfToBdd.cpp b/apps/cnfbdd/CnfToBdd.cpp
index d623ae1..7bf24ec 100644
--- a/apps/cnfbdd/CnfToBdd.cpp
+++ b/apps/cnfbdd/CnfToBdd.cpp
@@ -468,7 +468,7 @@ int CnfToBdd::getChild(State& s, int level, int take) {
 }
 
 bool CnfToBdd::badState(std::vector<uint16_t>& clauses, int level) const {
-    DdNode* zero = Cudd(0).ddNode();
+    DdNode* zero = Cudd_ReadLogicZero(Cudd::manager);
     DdNode* g = frontierSet[level].ddNode();
     if (Cudd_IsConstant(g)) return g == zero;
     std::reverse_iterator<std::vector<uint16_t>::iterator> t = clauses.rbegin();
-- 
2.43.0


From 1f24efa8543d8e9436ea63ab06595142621131d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 42/44] fix: ToBDD must not be evaluated by several threads at
 a time

---
 include/tdzdd/eval/ToBDD.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tdzdd/eval/ToBDD.hpp b/include/tdzdd/eval/ToBDD.hpp
index 9039688..453003e 100644
--- a/include/tdzdd/eval/ToBDD.hpp
+++ b/include/tdzdd/eval/ToBDD.hpp
@@ -51,6 +51,10 @@ public:
             : offset(offset) {
     }
 
+    bool isThreadSafe() const {
+        return false;
+    }
+
     void initialize(int topLevel) const {
         while (BDD_VarUsed() < topLevel + offset) {
             BDD_NewVar();
-- 
2.43.0


From df5d94091ca498687d071dfe636e723a38c009d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 43/44] fix: printing DdValues did not compile

---
 include/tdzdd/DdEval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tdzdd/DdEval.hpp b/include/tdzdd/DdEval.hpp
index 23af1ac..34c116c 100644
--- a/include/tdzdd/DdEval.hpp
+++ b/include/tdzdd/DdEval.hpp
@@ -75,7 +75,7 @@ public:
         os << "(";
         for (int b = 0; b < ARITY; ++b) {
             if (b != 0) os << ",";
-            os << o.value(b) << "@" << o.level(b);
+            os << o.get(b) << "@" << o.getLevel(b);
         }
         return os << ")";
     }
-- 
2.43.0


From bf9abd0351245761fe5db839d107d401c4208c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:43 +0000
Subject: [PATCH 44/44] fix: assigning a null CUDD wrapper referenced a null
 node

---
 apps/cnfbdd/Cudd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cnfbdd/Cudd.hpp b/apps/cnfbdd/Cudd.hpp
index c04c56a..2084035 100644
--- a/apps/cnfbdd/Cudd.hpp
+++ b/apps/cnfbdd/Cudd.hpp
@@ -95,7 +95,7 @@ public:
     }
 
     Cudd_& operator=(Cudd_ const& o) {
-        Cudd_Ref(o.dd);
+        if (o.dd != 0) Cudd_Ref(o.dd);
         this->~Cudd_();
         dd = o.dd;
         return *this;
-- 
2.43.0

