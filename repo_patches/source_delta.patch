From 3696a2699a78f3d38511338f329d6a4a621767c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 01/80] fix: keep every Tanner graph node when computing
 connected components

---
 src/UFDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 6f57938..1ae60a7 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -317,7 +317,7 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
             std::queue<std::size_t> stack;
             stack.push(c);
             while (!stack.empty()) { // use DFS-like algorithm to compute connected component containing node 'c'
-                auto curr = stack.back();
+                auto curr = stack.front();
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-- 
2.43.0


From 99808afd9da460ae0ffba2e88df2c3b415396d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 02/80] fix: UFDecoder estimates reproduce the syndrome

Only interior bits of a cluster may be part of its local estimate and the
cluster is only valid if the local system is actually solvable.
---
 src/UFDecoder.cpp | 50 +++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 1ae60a7..939db2a 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -166,40 +166,31 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
                                                          const std::set<std::size_t>&              syndrome,
                                                          const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    if (computeInteriorBitNodes(nodeSet).empty()) {
+    const auto interior = computeInteriorBitNodes(nodeSet);
+    if (interior.empty()) {
         return {};
     }
 
-    gf2Mat            redHz;
-    gf2Vec            redSyndr(0);
-    std::vector<bool> used(pcm->pcm->size());
+    gf2Mat redHz;
+    gf2Vec redSyndr(0);
 
+    // All checks adjacent to interior bits are part of the component. Restricting the system to the interior bits
+    // ensures that the local estimate does not trigger checks outside the component.
     for (const auto it : nodeSet) {
         if (it >= getCode()->getN()) { // is a check node
-            if (!used.at(it - getCode()->getN())) {
-                redHz.emplace_back(pcm->pcm->at(it - getCode()->getN()));
-                used.at(it - getCode()->getN()) = true;
-                if (syndrome.find(it - getCode()->getN()) != syndrome.end()) {
-                    redSyndr.emplace_back(1); // If the check node is in the syndrome we need to satisfy check=1
-                } else {
-                    redSyndr.emplace_back(0);
-                }
-            }
-        } else { // is a bit node
-            const auto nbrs = this->getCode()->gethZ()->getNbrs(it);
-            for (auto n : nbrs) { // add neighbouring checks (these are maybe not in the interior but to stay consistent with the syndrome we need to include these in the check)
-                if (!used.at(n - getCode()->getN())) {
-                    redHz.emplace_back(pcm->pcm->at(n - getCode()->getN()));
-                    if (syndrome.find(n) != syndrome.end()) {
-                        redSyndr.emplace_back(1);
-                    } else {
-                        redSyndr.emplace_back(0);
-                    }
-                    used.at(n - getCode()->getN()) = true;
-                }
+            const auto& check = pcm->pcm->at(it - getCode()->getN());
+            gf2Vec      row;
+            row.reserve(interior.size());
+            for (const auto bit : interior) {
+                row.emplace_back(check.at(bit));
             }
+            redHz.emplace_back(row);
+            redSyndr.emplace_back(syndrome.find(it) != syndrome.end()); // If the check node is in the syndrome we need to satisfy check=1
         }
     }
+    if (redHz.empty()) {
+        return {};
+    }
     auto                  redHzCsc = Utils::toCsc(redHz);
     std::vector<uint64_t> redSyndInt(redSyndr.size());
     for (std::size_t i = 0; i < redSyndr.size(); i++) {
@@ -209,11 +200,18 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
     auto estim  = pluDec.luSolve(redSyndInt); // solves the system redHz*x=redSyndr by x to see if a solution can be found
 
     std::set<std::size_t> res;
+    gf2Vec                estimSyndr(redSyndr.size());
     for (std::size_t i = 0; i < estim.size(); i++) {
         if (estim.at(i) != 0U) {
-            res.emplace(i);
+            res.emplace(interior.at(i));
+            for (const auto check : redHzCsc.at(i)) {
+                estimSyndr.at(check) = !estimSyndr.at(check);
+            }
         }
     }
+    if (estimSyndr != redSyndr) { // the system has no solution in the interior
+        return {};
+    }
     return res;
 }
 
-- 
2.43.0


From 9e6bce3a2ef7fa59e398a30a223eb403d8c5f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 03/80] fix: invalid-component and smallest-component growth of
 UFDecoder terminate

---
 include/UFDecoder.hpp |  2 +-
 src/UFDecoder.cpp     | 33 +++++++++++++++++++--------------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index d957791..be22b53 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -23,7 +23,7 @@ private:
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     void                                             standardGrowth(std::set<std::size_t>& comps);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps);
     void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet);
     void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps);
     [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes) const;
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 939db2a..cdc785e 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -65,10 +65,16 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
                 // // grow all components (including valid ones) by 1
                 standardGrowth(components);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
-                // not implemented yet
+                // grow all invalid components by 1
+                for (const auto& comp : invalidComponents) {
+                    for (const auto node : comp) {
+                        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+                        components.insert(nbrs.begin(), nbrs.end());
+                    }
+                }
             } else if (this->growth == GrowthVariant::SingleSmallest) {
-                // grow only by neighbours of single smallest cluster
-                singleClusterSmallestFirstGrowth(components);
+                // grow only by neighbours of single smallest invalid cluster (valid ones may not be able to grow any further)
+                singleClusterSmallestFirstGrowth(components, invalidComponents);
             } else if (this->growth == GrowthVariant::SingleRandom) {
                 // grow only by neighbours of single random cluster
                 singleClusterRandomFirstGrowth(components);
@@ -114,14 +120,13 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           const std::set<std::size_t>&              syndrome,
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    auto ccomps = getConnectedComps(nodeSet);
-    return std::any_of(ccomps.begin(), ccomps.end(), [&](const auto& comp) {
-        bool const res = isValidComponent(comp, syndrome, pcm);
-        if (!res) {
-            invalidComps.emplace_back(comp.begin(), comp.end());
+    invalidComps.clear();
+    for (const auto& comp : getConnectedComps(nodeSet)) {
+        if (!isValidComponent(comp, syndrome, pcm)) {
+            invalidComps.emplace_back(comp);
         }
-        return !res;
-    });
+    }
+    return !invalidComps.empty();
 }
 
 /**
@@ -229,14 +234,14 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
 }
 
 /**
- * Grows the node set by the neighbours of the single smallest cluster
+ * Grows the node set by the neighbours of the single smallest invalid cluster
  * @param nodeSet
+ * @param invalidComps
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                  ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps) {
     std::set<std::size_t> smallestComponent;
     std::size_t           smallestSize = SIZE_MAX;
-    for (const auto& cId : ccomps) {
+    for (const auto& cId : invalidComps) {
         if (cId.size() < smallestSize) {
             smallestComponent = cId;
             smallestSize      = cId.size();
-- 
2.43.0


From 3e7b9be244ab6d93acfde8d9bbf54939dff8690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 04/80] fix: single-qubit growth picks an existing cluster and
 any of its nodes

---
 src/UFDecoder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index cdc785e..3ca9718 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -292,13 +292,16 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size());
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size() - 1);
     const std::size_t             chosenIdx = d(gen);
     auto                          it        = ccomps.begin();
     std::advance(it, chosenIdx);
     chosenComponent = *it;
 
-    const auto& nbrs = getCode()->gethZ()->getNbrs(*chosenComponent.begin());
+    std::uniform_int_distribution nodeDist(static_cast<std::size_t>(0U), chosenComponent.size() - 1);
+    auto                          nodeIt = chosenComponent.begin();
+    std::advance(nodeIt, nodeDist(gen));
+    const auto& nbrs = getCode()->gethZ()->getNbrs(*nodeIt);
     comps.insert(nbrs.begin(), nbrs.end());
 }
 
-- 
2.43.0


From abd7bf370726fb73759fe6a2b94ee155cefd192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 05/80] fix: Decoder::setCode keeps hX and hZ of the given code
 apart

---
 include/Decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Decoder.hpp b/include/Decoder.hpp
index 6973f8a..53e6ae1 100644
--- a/include/Decoder.hpp
+++ b/include/Decoder.hpp
@@ -88,7 +88,7 @@ public:
         if (c.gethX() == nullptr) {
             this->code = std::make_unique<Code>(*c.gethZ()->pcm);
         } else {
-            this->code = std::make_unique<Code>(*c.gethZ()->pcm, *c.gethX()->pcm);
+            this->code = std::make_unique<Code>(*c.gethX()->pcm, *c.gethZ()->pcm);
         }
     }
     virtual void reset() {};
-- 
2.43.0


From dd1d9bba23de02825134639a81e4815d425f11c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 06/80] fix: two-sided decoding decodes both halves with their
 own check matrix

The second half was decoded on the Tanner graph (and, in the heuristic, with
the matrix) of the first one, the syndrome was split at the wrong position for
matrices with different row counts, and the Z estimate came first.
---
 include/UFDecoder.hpp | 12 ++++-----
 src/UFDecoder.cpp     | 61 +++++++++++++++++++++++--------------------
 src/UFHeuristic.cpp   | 18 ++++++++-----
 3 files changed, 51 insertions(+), 40 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index be22b53..2eb0dfc 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -19,12 +19,12 @@ private:
     [[nodiscard]] bool                               isValidComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     bool                                             containsInvalidComponents(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                                std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const;
+    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                              const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    void                                             standardGrowth(std::set<std::size_t>& comps);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps);
-    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps);
-    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes) const;
+    void                                             standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 3ca9718..f83dc28 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -23,20 +23,25 @@
  */
 void UFDecoder::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
+        const auto        growthVariant = this->growth; // the reset in between must not change the configuration
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(syndrome.size()) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecode(xSyndr, this->getCode()->gethZ());
         auto xres = this->result;
         this->reset();
+        this->growth = growthVariant;
         doDecode(zSyndr, this->getCode()->gethX());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(),
-                  std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(),
-                  std::back_inserter(this->result.estimNodeIdxVector));
+        // same layout as the syndrome: X part first, then Z part
+        xres.decodingTime += this->result.decodingTime;
+        std::move(this->result.estimBoolVector.begin(), this->result.estimBoolVector.end(),
+                  std::back_inserter(xres.estimBoolVector));
+        for (const auto idx : this->result.estimNodeIdxVector) {
+            xres.estimNodeIdxVector.emplace_back(idx + this->getCode()->getN());
+        }
+        this->result = xres;
     } else {
         this->doDecode(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -63,24 +68,24 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
                components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
-                standardGrowth(components);
+                standardGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
                 // grow all invalid components by 1
                 for (const auto& comp : invalidComponents) {
                     for (const auto node : comp) {
-                        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+                        const auto& nbrs = pcm->getNbrs(node);
                         components.insert(nbrs.begin(), nbrs.end());
                     }
                 }
             } else if (this->growth == GrowthVariant::SingleSmallest) {
                 // grow only by neighbours of single smallest invalid cluster (valid ones may not be able to grow any further)
-                singleClusterSmallestFirstGrowth(components, invalidComponents);
+                singleClusterSmallestFirstGrowth(components, invalidComponents, pcm);
             } else if (this->growth == GrowthVariant::SingleRandom) {
                 // grow only by neighbours of single random cluster
-                singleClusterRandomFirstGrowth(components);
+                singleClusterRandomFirstGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::SingleQubitRandom) {
                 // grow only by neighbours of single qubit
-                singleQubitRandomFirstGrowth(components);
+                singleQubitRandomFirstGrowth(components, pcm);
             } else {
                 throw std::invalid_argument("Unsupported growth variant");
             }
@@ -88,7 +93,7 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
     }
 
     std::vector<std::set<std::size_t>> estims;
-    auto                               ccomps = getConnectedComps(components);
+    auto                               ccomps = getConnectedComps(components, pcm);
     for (const auto& comp : ccomps) {
         auto compEstimate = getEstimateForComponent(comp, syndr, pcm);
         estims.emplace_back(compEstimate.begin(), compEstimate.end());
@@ -121,7 +126,7 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     invalidComps.clear();
-    for (const auto& comp : getConnectedComps(nodeSet)) {
+    for (const auto& comp : getConnectedComps(nodeSet, pcm)) {
         if (!isValidComponent(comp, syndrome, pcm)) {
             invalidComps.emplace_back(comp);
         }
@@ -147,11 +152,11 @@ bool UFDecoder::isValidComponent(const std::set<std::size_t>&              nodeS
  * @param nodeSet
  * @return
  */
-std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const {
+std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::vector<std::size_t> res;
 
     for (const auto idx : nodeSet) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(idx);
+        const auto& nbrs = pcm->getNbrs(idx);
         if (idx < getCode()->getN() && std::includes(nodeSet.begin(), nodeSet.end(), nbrs.begin(), nbrs.end())) {
             res.emplace_back(idx);
         }
@@ -171,7 +176,7 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
                                                          const std::set<std::size_t>&              syndrome,
                                                          const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    const auto interior = computeInteriorBitNodes(nodeSet);
+    const auto interior = computeInteriorBitNodes(nodeSet, pcm);
     if (interior.empty()) {
         return {};
     }
@@ -224,9 +229,9 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
  * Grows the node set by the neighbours of ALL clusters
  * @param comps
  */
-void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
+void UFDecoder::standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     for (auto currCompIt = comps.begin(); currCompIt != comps.end(); currCompIt++) {
-        const auto nbrs = getCode()->gethZ()->getNbrs(*currCompIt);
+        const auto nbrs = pcm->getNbrs(*currCompIt);
         for (auto n : nbrs) {
             comps.insert(n);
         }
@@ -238,7 +243,7 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
  * @param nodeSet
  * @param invalidComps
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps) {
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     std::set<std::size_t> smallestComponent;
     std::size_t           smallestSize = SIZE_MAX;
     for (const auto& cId : invalidComps) {
@@ -249,7 +254,7 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet,
     }
 
     for (auto node : smallestComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -258,8 +263,8 @@ void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet,
  * Grows the node set by the neighbours of a single random cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                          ccomps = getConnectedComps(nodeSet);
+void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(nodeSet, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -270,7 +275,7 @@ void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
     chosenComponent = *it;
 
     for (auto node : chosenComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -287,8 +292,8 @@ void UFDecoder::reset() {
  * Grows the node set by the neighbours of a single random qubit
  * @param comps
  */
-void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
-    auto                          ccomps = getConnectedComps(comps);
+void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    auto                          ccomps = getConnectedComps(comps, pcm);
     std::set<std::size_t>         chosenComponent;
     std::random_device            rd;
     std::mt19937                  gen(rd());
@@ -301,7 +306,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
     std::uniform_int_distribution nodeDist(static_cast<std::size_t>(0U), chosenComponent.size() - 1);
     auto                          nodeIt = chosenComponent.begin();
     std::advance(nodeIt, nodeDist(gen));
-    const auto& nbrs = getCode()->gethZ()->getNbrs(*nodeIt);
+    const auto& nbrs = pcm->getNbrs(*nodeIt);
     comps.insert(nbrs.begin(), nbrs.end());
 }
 
@@ -311,7 +316,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
  * @return
  */
 std::vector<std::set<std::size_t>>
-UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
+UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::set<std::size_t>              visited;
     std::vector<std::set<std::size_t>> res;
 
@@ -327,7 +332,7 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
                 stack.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-                    auto nbrs = getCode()->gethZ()->getNbrs(curr);
+                    auto nbrs = pcm->getNbrs(curr);
                     for (auto n : nbrs) {
                         if (ccomp.find(n) == ccomp.end() && nodes.find(n) != nodes.end()) {
                             stack.push(n);
diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 64cf917..18100fa 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -46,18 +46,24 @@ std::unordered_set<std::size_t> UFHeuristic::computeInitTreeComponents(const gf2
  */
 void UFHeuristic::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
+        const auto        growthVariant = this->growth; // the reset in between must not change the configuration
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(std::size(syndrome)) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecoding(xSyndr, this->getCode()->gethZ());
         auto xres = this->result;
         this->reset();
-        doDecoding(zSyndr, this->getCode()->gethZ());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(), std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(), std::back_inserter(this->result.estimNodeIdxVector));
+        this->growth = growthVariant;
+        doDecoding(zSyndr, this->getCode()->gethX());
+        // same layout as the syndrome: X part first, then Z part
+        xres.decodingTime += this->result.decodingTime;
+        std::move(this->result.estimBoolVector.begin(), this->result.estimBoolVector.end(), std::back_inserter(xres.estimBoolVector));
+        for (const auto idx : this->result.estimNodeIdxVector) {
+            xres.estimNodeIdxVector.emplace_back(idx + this->getCode()->getN());
+        }
+        this->result = xres;
     } else {
         this->doDecoding(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -73,7 +79,7 @@ void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<Parit
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
         std::unordered_set<std::size_t> erasure;
-        while (!invalidComponents.empty() && invalidComponents.size() < (this->getCode()->gethZ()->pcm->size() + getCode()->gethZ()->pcm->front().size())) {
+        while (!invalidComponents.empty() && invalidComponents.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             // Step 1 growth
             std::vector<std::pair<std::size_t, std::size_t>> fusionEdges;
             std::unordered_map<std::size_t, bool>            presentMap; // for step 4
-- 
2.43.0


From d13b5731f0c011d99a266d395de4338bca697155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 07/80] fix: UFHeuristic results do not depend on previous
 decoding runs

---
 src/UFHeuristic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 18100fa..b2549a1 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -75,6 +75,7 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
 void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     auto                     decodingTimeBegin = std::chrono::high_resolution_clock::now();
     std::vector<std::size_t> res;
+    nodeMap.clear(); // a decoding run must not see the clusters of a previous one
     if (!syndrome.empty() && !std::all_of(syndrome.begin(), syndrome.end(), [](bool val) { return !val; })) {
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
-- 
2.43.0


From d05b2c6f35944f29adead21af84781380aa5b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 08/80] fix: heuristic clusters are valid only through interior
 bits of their own

---
 src/UFHeuristic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index b2549a1..587b073 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -355,7 +355,7 @@ bool UFHeuristic::isValidComponent(const std::size_t& compId, const std::unique_
     for (const auto& checkVertex : compNode->checkVertices) {
         const auto& nbrs = pcm->getNbrs(checkVertex);
         for (const auto& nbr : nbrs) {
-            if (compNode->boundaryVertices.find(nbr) == compNode->boundaryVertices.end()) {
+            if (TreeNode::Find(getNodeFromIdx(nbr))->vertexIdx == TreeNode::Find(compNode)->vertexIdx && compNode->boundaryVertices.find(nbr) == compNode->boundaryVertices.end()) {
                 valid.at(i) = true;
                 break;
             }
-- 
2.43.0


From 585164aafa207cc73b151fcae3889badcfade3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 09/80] fix: statistics file of the word error rate simulation
 is valid JSON

---
 src/DecodingSimulator.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 232def8..c6f23c9 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -54,12 +54,17 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         statisticsOutstr.open(jsonFileName);
         std::cout << "Writing stats output to " << jsonFileName << '\n';
         statisticsOutstr << "{ \"runs\" : [ ";
-        statisticsOutstr << R"({ "run": { "physicalErrRate":)" << minPhysicalErrRate << ", \"data\": [ ";
     }
 
     auto currPer = minPhysicalErrRate;
     while (currPer < maxPhysicalErrRate) {
         auto nrOfFailedRuns = 0;
+        if (statsOut) {
+            if (!wordErrRatePerPhysicalErrRate.empty()) {
+                statisticsOutstr << ", ";
+            }
+            statisticsOutstr << R"({ "run": { "physicalErrRate":)" << currPer << ", \"data\": [ ";
+        }
         for (std::size_t j = 0; j < nrRunsPerRate; j++) {
             std::unique_ptr<Decoder> decoder;
             if (decoderType == DecoderType::UfDecoder) {
@@ -93,6 +98,9 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
                 }
             }
         }
+        if (statsOut) {
+            statisticsOutstr << " ] } }";
+        }
         // compute word error rate WER
         const auto blockErrRate = static_cast<double>(nrOfFailedRuns) / static_cast<double>(nrRunsPerRate);
         const auto wordErrRate  = blockErrRate / static_cast<double>(code.getK());       // rate of codewords re decoder does not give correct answer (fails or introduces logical operator)
@@ -101,7 +109,7 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         currPer += perStepSize;
     }
 
-    statisticsOutstr << "}";
+    statisticsOutstr << " ] }";
     const json dataj = wordErrRatePerPhysicalErrRate;
     rawDataOutput << dataj.dump(2U);
     statisticsOutstr.close();
-- 
2.43.0


From 13e6d569fb31ad4edec4b4a5bf92c9d8a3d0aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 10/80] fix: average runtime of a run does not include the
 previous runs

---
 src/DecodingSimulator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index c6f23c9..7eedeb8 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -150,10 +150,10 @@ void DecodingSimulator::simulateAverageRuntime(const std::string& rawDataOutputF
     }
     try {
         for (const auto& currPath : codePaths) {
-            std::size_t avgDecodingTimeAcc = 0U;
-            auto        code               = Code(currPath);
-            const auto  codeN              = code.getN();
+            auto       code  = Code(currPath);
+            const auto codeN = code.getN();
             for (std::size_t j = 0; j < nrRuns; j++) {
+                std::size_t avgDecodingTimeAcc = 0U;
                 for (std::size_t i = 0; i < nrSamples; i++) {
                     std::unique_ptr<Decoder> decoder;
                     if (decoderType == DecoderType::UfDecoder) {
-- 
2.43.0


From e1fa1139dd7111fcc4de3043d804c5e612a38bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 11/80] fix: Q5Laflamme and Q7Steane measure the target qubit
 into its classical bit

---
 src/ecc/Q5Laflamme.cpp |  4 ++--
 src/ecc/Q7Steane.cpp   | 13 ++-----------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 1e40ef5..8ddcf0d 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -161,8 +161,8 @@ void Q5Laflamme::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                qcMapped->measure(static_cast<Qubit>(measureGate->getClassics().at(j)),
-                                  measureGate->getTargets().at(j));
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 6eb077b..9907cbf 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -205,17 +205,8 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                auto classicalRegisterName =
-                        qcOriginal->getClassicalRegister(measureGate->getTargets().at(j));
-                if (!classicalRegisterName.empty()) {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            {classicalRegisterName, measureGate->getTargets().at(j)});
-                } else {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            measureGate->getTargets().at(j));
-                }
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
-- 
2.43.0


From 8589b438c2b22c869f651a36ee790d72311192f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 12/80] fix: Q5Laflamme resets the ancilla for every encoded
 qubit

---
 src/ecc/Q5Laflamme.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 8ddcf0d..2333f16 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -22,9 +22,6 @@ void Q5Laflamme::writeEncoding() {
 
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(ancStart);
-    }
-
-    for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->h(ancStart);
         for (std::size_t j = 0; j < ecc.nRedundantQubits; j++) {
             qcMapped->cz(ancStart, static_cast<Qubit>(i + j * nQubits));
-- 
2.43.0


From a6e0778b6fee096fa582460f84d901993b9adaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 13/80] fix: surface code decoding does not overwrite classical
 bits of the circuit

---
 src/ecc/Q18Surface.cpp | 3 ++-
 src/ecc/Q9Surface.cpp  | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ecc/Q18Surface.cpp b/src/ecc/Q18Surface.cpp
index ff44ba5..b7d9095 100644
--- a/src/ecc/Q18Surface.cpp
+++ b/src/ecc/Q18Surface.cpp
@@ -73,13 +73,14 @@ void Q18Surface::writeDecoding() {
         return;
     }
     const auto nQubits = qcOriginal->getNqubits();
+    const auto clAncStart = qcOriginal->getNcbits(); // results of the decoding are not results of the circuit
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(static_cast<Qubit>(i + X_INFORMATION * nQubits));
         for (const Qubit qubit : ANCILLA_QUBITS_DECODE) {
             qcMapped->cx(static_cast<Qubit>(i + qubit * nQubits),
                          static_cast<Qubit>(i + X_INFORMATION * nQubits));
         }
-        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
+        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), clAncStart);
         qcMapped->reset(i);
         qcMapped->cx(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
     }
diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index 4322450..01ec7fe 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -105,14 +105,15 @@ void Q9Surface::writeDecoding() {
         return;
     }
     const auto nQubits = qcOriginal->getNqubits();
+    const auto clAncStart = qcOriginal->getNcbits(); // results of the decoding are not results of the circuit
     for (std::size_t i = 0; i < nQubits; i++) {
         // measure 0, 4, 8. state = m0*m4*m8
-        qcMapped->measure(static_cast<Qubit>(i), i);
-        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), i);
-        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), i);
+        qcMapped->measure(static_cast<Qubit>(i), clAncStart);
+        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), clAncStart);
+        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), clAncStart);
         qcMapped->cx(static_cast<Qubit>(i + 4 * nQubits), static_cast<Qubit>(i));
         qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i));
-        qcMapped->measure(static_cast<Qubit>(i), i);
+        qcMapped->measure(static_cast<Qubit>(i), clAncStart);
     }
     isDecoded = true;
 }
-- 
2.43.0


From 9c2d75acf860d031c47ea73f6d76fd1e5d243116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 14/80] fix: idle qubits in front of used ones do not shift the
 mapped circuit

---
 src/ecc/Ecc.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 2a1a168..e00b8f5 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -7,7 +7,14 @@
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
-    qcOriginal->stripIdleQubits(true, false);
+    // gates keep their qubit indices, so only the idle qubits behind the last used one can be removed
+    while (qcOriginal->getNqubits() > 0) {
+        const auto last = static_cast<Qubit>(qcOriginal->getNqubits() - 1);
+        if (!qcOriginal->isIdleQubit(last)) {
+            break;
+        }
+        qcOriginal->removeQubit(last);
+    }
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
     auto cRegs = qcOriginal->getCregs();
     for (auto const& [regName, regBits] : cRegs) {
-- 
2.43.0


From cb53d2b3e36a2d775ebc32afb608dd5b91d8c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 15/80] fix: identities and barriers between measurements do
 not re-encode the qubits

---
 src/ecc/Q18Surface.cpp | 3 ++-
 src/ecc/Q3Shor.cpp     | 3 ++-
 src/ecc/Q5Laflamme.cpp | 3 ++-
 src/ecc/Q7Steane.cpp   | 3 ++-
 src/ecc/Q9Shor.cpp     | 3 ++-
 src/ecc/Q9Surface.cpp  | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ecc/Q18Surface.cpp b/src/ecc/Q18Surface.cpp
index b7d9095..b99a461 100644
--- a/src/ecc/Q18Surface.cpp
+++ b/src/ecc/Q18Surface.cpp
@@ -88,7 +88,8 @@ void Q18Surface::writeDecoding() {
 }
 
 void Q18Surface::mapGate(const qc::Operation& gate) {
-    if (isDecoded && gate.getType() != qc::Measure) {
+    if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::I &&
+        gate.getType() != qc::Barrier) {
         writeEncoding();
     }
     const auto nQubits = qcOriginal->getNqubits();
diff --git a/src/ecc/Q3Shor.cpp b/src/ecc/Q3Shor.cpp
index 42490cc..e241044 100644
--- a/src/ecc/Q3Shor.cpp
+++ b/src/ecc/Q3Shor.cpp
@@ -107,7 +107,8 @@ void Q3Shor::addOperation(const qc::Controls& controls,
 }
 
 void Q3Shor::mapGate(const qc::Operation& gate) {
-    if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::H) {
+    if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::H &&
+        gate.getType() != qc::I && gate.getType() != qc::Barrier) {
         writeEncoding();
     }
     switch (gate.getType()) {
diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 2333f16..7c44afb 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -127,7 +127,8 @@ void Q5Laflamme::writeDecoding() {
 }
 
 void Q5Laflamme::mapGate(const qc::Operation& gate) {
-    if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::H) {
+    if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::H &&
+        gate.getType() != qc::I && gate.getType() != qc::Barrier) {
         writeEncoding();
     }
     const auto nQubits = qcOriginal->getNqubits();
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 9907cbf..8bfcf44 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -160,7 +160,8 @@ void Q7Steane::addSOperation(const qc::Controls& controls,
 }
 
 void Q7Steane::mapGate(const qc::Operation& gate) {
-    if (isDecoded && gate.getType() != qc::Measure) {
+    if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::I &&
+        gate.getType() != qc::Barrier) {
         writeEncoding();
     }
     const QubitCount nQubits = qcOriginal->getNqubits();
diff --git a/src/ecc/Q9Shor.cpp b/src/ecc/Q9Shor.cpp
index 4ba521c..48ddd6b 100644
--- a/src/ecc/Q9Shor.cpp
+++ b/src/ecc/Q9Shor.cpp
@@ -146,7 +146,8 @@ void Q9Shor::writeDecoding() {
 }
 
 void Q9Shor::mapGate(const qc::Operation& gate) {
-    if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::H) {
+    if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::H &&
+        gate.getType() != qc::I && gate.getType() != qc::Barrier) {
         writeEncoding();
     }
     const auto nQubits = qcOriginal->getNqubits();
diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index 01ec7fe..55ebf68 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -119,7 +119,8 @@ void Q9Surface::writeDecoding() {
 }
 
 void Q9Surface::mapGate(const qc::Operation& gate) {
-    if (isDecoded && gate.getType() != qc::Measure) {
+    if (isDecoded && gate.getType() != qc::Measure && gate.getType() != qc::I &&
+        gate.getType() != qc::Barrier) {
         writeEncoding();
     }
     const auto nQubits = qcOriginal->getNqubits();
-- 
2.43.0


From 31b478c577fe1638ca1048050fbaf12f11b515eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 16/80] fix: Q7Steane rejects controlled S gates, which are not
 transversal

---
 src/ecc/Q7Steane.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 8bfcf44..9abfac3 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -196,6 +196,9 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         // locigal S = 3 physical S's
     case qc::S:
     case qc::Sdg:
+        if (gate.getNcontrols() != 0U) { // not transversal
+            gateNotAvailableError(gate);
+        }
         addSOperation(gate.getControls(), gate.getTargets(), gate.getType());
         break;
     case qc::Measure:
-- 
2.43.0


From 0f9fee99cd6a8a143ff29f24619092c4d367c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 17/80] fix: Q7Steane rejects controlled H and multi-controlled
 gates, which are not transversal

---
 src/ecc/Q7Steane.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 9abfac3..acc4f18 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -173,6 +173,11 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
     case qc::H:
     case qc::Y:
     case qc::Z:
+        // only singly controlled Pauli gates are transversal
+        if (gate.getNcontrols() > 1U ||
+            (gate.getNcontrols() == 1U && gate.getType() == qc::H)) {
+            gateNotAvailableError(gate);
+        }
         for (auto i : gate.getTargets()) {
             if (gate.getNcontrols() != 0U) {
                 const auto& ctrls = gate.getControls();
-- 
2.43.0


From 4e7c43e6f1ac302f04c10f5f663aa6b5c6264f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 18/80] fix: controlled Y of Q7Steane has the right phase on
 the control

---
 src/ecc/Q7Steane.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index acc4f18..0a3c6c0 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -189,6 +189,11 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
                     }
                     qcMapped->emplace_back<qc::StandardOperation>(
                             ctrls2, static_cast<Qubit>(i + j * nQubits), gate.getType());
+                    if (gate.getType() == qc::Y) { // seven physical Ys are a logical -Y
+                        for (const auto& ct : ctrls) {
+                            qcMapped->z(static_cast<Qubit>(ct.qubit + j * nQubits));
+                        }
+                    }
                 }
             } else {
                 for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
-- 
2.43.0


From f8945255bcb39dddc88bfc37ec6cdafd157fbf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 19/80] fix: Q7Steane re-encodes the decoded state behind a
 measurement

---
 include/ecc/Q7Steane.hpp |  2 +-
 src/ecc/Q7Steane.cpp     | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/ecc/Q7Steane.hpp b/include/ecc/Q7Steane.hpp
index 7377976..111547a 100644
--- a/include/ecc/Q7Steane.hpp
+++ b/include/ecc/Q7Steane.hpp
@@ -26,7 +26,7 @@ protected:
     void writeEncoding() override;
 
     void measureAndCorrect() override;
-    void measureAndCorrectSingle(bool xSyndrome);
+    void measureAndCorrectSingle(bool xSyndrome, bool encode = false);
 
     void writeDecoding() override;
 
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 0a3c6c0..afe687f 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -24,10 +24,12 @@ void Q7Steane::writeEncoding() {
         for (std::size_t i = 0; i < nQubits; i++) {
             for (std::size_t j = 1; j < N_REDUNDANT_QUBITS; j++) {
                 qcMapped->reset(static_cast<Qubit>(i + j * nQubits));
+                // keep the state of the decoded qubit
+                qcMapped->cx(static_cast<Qubit>(i), static_cast<Qubit>(i + j * nQubits));
             }
         }
     }
-    measureAndCorrectSingle(true);
+    measureAndCorrectSingle(true, gatesWritten);
 }
 
 void Q7Steane::measureAndCorrect() {
@@ -38,7 +40,7 @@ void Q7Steane::measureAndCorrect() {
     measureAndCorrectSingle(false);
 }
 
-void Q7Steane::measureAndCorrectSingle(bool xSyndrome) {
+void Q7Steane::measureAndCorrectSingle(bool xSyndrome, bool encode) {
     const auto nQubits    = qcOriginal->getNqubits();
     const auto ancStart   = nQubits * ecc.nRedundantQubits;
     const auto clAncStart = qcOriginal->getNcbits();
@@ -83,6 +85,16 @@ void Q7Steane::measureAndCorrectSingle(bool xSyndrome) {
         // correct X_i for i+1 = c3*1+c4*2+c5*4
         const auto opType = xSyndrome ? qc::Z : qc::X;
         for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
+            if (encode) {
+                // two Zs with the same syndrome, which do not change the phase of a logical one
+                const std::size_t first  = j == 0 ? 2U : 1U;
+                const std::size_t second = first ^ (j + 1U);
+                for (const auto q : {first, second}) {
+                    qcMapped->classicControlled(opType, static_cast<Qubit>(i + (q - 1U) * nQubits),
+                                                controlRegister, j + 1U);
+                }
+                continue;
+            }
             qcMapped->classicControlled(opType, static_cast<Qubit>(i + j * nQubits),
                                         controlRegister, j + 1U);
         }
-- 
2.43.0


From a6553b3fa05fa0fc6a1a3b31a2b7db5a72fa6964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 20/80] fix: stabilizer equivalence does not hold for a
 stabilizer and an arbitrary operator

---
 src/mqt/qecc/codes/stabilizer_code.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 88832ea..c357f18 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -99,9 +99,8 @@ class StabilizerCode:
 
     def stabilizer_equivalent(self, p1: Pauli, p2: Pauli) -> bool:
         """Check if two Pauli strings are equivalent up to stabilizers of the code."""
-        v1 = pauli_to_binary(p1)
-        v2 = pauli_to_binary(p2)
-        return bool(mod2.rank(np.vstack((self.generators, v1, v2))) == mod2.rank(np.vstack((self.generators, v1))))
+        product = (pauli_to_binary(p1) + pauli_to_binary(p2)) % 2
+        return bool(mod2.rank(np.vstack((self.generators, product))) == mod2.rank(self.generators))
 
     @staticmethod
     def _check_stabilizer_generators(generators: npt.NDArray[np.int8] | list[str]) -> None:
-- 
2.43.0


From cc5c7ae7163d9d3167665a4bca2274febcef2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 21/80] fix: signs of redundant generators do not change the
 number of logical qubits

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index c357f18..829e5bb 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -48,7 +48,7 @@ class StabilizerCode:
         self.generators = paulis_to_binary(generators)
         self.symplectic_matrix = self.generators[:, :-1]  # discard the phase
         self.phases = self.generators[:, -1]
-        self.k = self.n - mod2.rank(self.generators)
+        self.k = self.n - mod2.rank(self.symplectic_matrix)
 
         if distance is not None and distance <= 0:
             msg = "Distance must be a positive integer."
-- 
2.43.0


From 690ae1ed609c74a46bec26b61f3226f114a5e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 22/80] fix: equal stabilizer codes have equal hashes

---
 src/mqt/qecc/codes/stabilizer_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 829e5bb..956c6ff 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -74,7 +74,8 @@ class StabilizerCode:
 
     def __hash__(self) -> int:
         """Compute a hash for the stabilizer code."""
-        return hash(int.from_bytes(self.generators.tobytes(), sys.byteorder))
+        # equal codes can have different generators
+        return hash((self.n, int(mod2.rank(self.generators))))
 
     def __eq__(self, other: object) -> bool:
         """Check if two stabilizer codes are equal."""
-- 
2.43.0


From 617978710d2a69abadf66c73f9590778fa8d8332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 23/80] fix: stabilizer codes on different numbers of qubits
 can be compared

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 956c6ff..e52912a 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -81,6 +81,8 @@ class StabilizerCode:
         """Check if two stabilizer codes are equal."""
         if not isinstance(other, StabilizerCode):
             return NotImplemented
+        if self.n != other.n:
+            return False
         rnk = mod2.rank(self.generators)
         return bool(
             rnk == mod2.rank(other.generators) and rnk == mod2.rank(np.vstack((self.generators, other.generators)))
-- 
2.43.0


From 0ab32f04fbcaecbb7127743947569a5b118b3525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 24/80] fix: every logical X-operator anti-commutes with
 exactly one logical Z-operator

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index e52912a..af830f6 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -159,7 +159,7 @@ class StabilizerCode:
             raise InvalidStabilizerCodeError(msg)
 
         commutations = symplectic_matrix_product(self.Lz_symplectic, self.Lx_symplectic)
-        if not np.all(np.sum(commutations, axis=1) == 1):
+        if not np.all(np.sum(commutations, axis=1) == 1) or not np.all(np.sum(commutations, axis=0) == 1):
             msg = "Every logical X-operator must anti-commute with exactly one logical Z-operator."
             raise InvalidStabilizerCodeError(msg)
 
-- 
2.43.0


From 7ec2aa90bca5248911e76235649f15536b6835b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 25/80] fix: stabilizer generators that anti-commute are
 rejected

---
 src/mqt/qecc/codes/stabilizer_code.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index af830f6..02b406e 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -124,6 +124,10 @@ class StabilizerCode:
 
     def _check_code_correct(self) -> None:
         """Check if the code is correct. Throws an exception if not."""
+        if not all_commute(self.symplectic_matrix, self.symplectic_matrix):
+            msg = "Stabilizer generators must commute."
+            raise InvalidStabilizerCodeError(msg)
+
         if self.Lz is not None or self.Lx is not None:
             if self.Lz is None:
                 msg = "If logical X-operators are given, logical Z-operators must also be given."
-- 
2.43.0


From 89e9a3ce4267417c8e874785e74b4215ab6db1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 26/80] fix: stabilizers of CSS codes without X or without Z
 checks can be queried

---
 src/mqt/qecc/codes/css_code.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index 5373ba0..8618a67 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -105,6 +105,8 @@ class CSSCode(StabilizerCode):
     def check_if_x_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
         assert self.Hx is not None
+        if self.Hx.shape[0] == 0:
+            return not np.any(pauli)
         return bool(mod2.rank(np.vstack((self.Hx, pauli))) == mod2.rank(self.Hx))
 
     def check_if_logical_z_error(self, residual: npt.NDArray[np.int8]) -> bool:
@@ -114,6 +116,8 @@ class CSSCode(StabilizerCode):
     def check_if_z_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
         assert self.Hz is not None
+        if self.Hz.shape[0] == 0:
+            return not np.any(pauli)
         return bool(mod2.rank(np.vstack((self.Hz, pauli))) == mod2.rank(self.Hz))
 
     def stabilizer_eq_x_error(self, error_1: npt.NDArray[np.int8], error_2: npt.NDArray[np.int8]) -> bool:
-- 
2.43.0


From f8cebb44c56399df85561ca72a5ecf0a2dab08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 27/80] fix: CSS codes are self-dual only if X and Z checks
 span the same space

---
 src/mqt/qecc/codes/css_code.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index 8618a67..b7ee7d0 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -140,11 +140,10 @@ class CSSCode(StabilizerCode):
 
     def is_self_dual(self) -> bool:
         """Check if the code is self-dual."""
-        if self.Hx is None or self.Hz is None:
+        if self.Hx.shape[0] == 0 or self.Hz.shape[0] == 0:
             return False
-        return bool(
-            self.Hx.shape[0] == self.Hz.shape[0] and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))
-        )
+        rank = mod2.rank(self.Hx)
+        return bool(rank == mod2.rank(self.Hz) and rank == mod2.rank(np.vstack([self.Hx, self.Hz])))
 
     @staticmethod
     def _check_valid_check_matrices(Hx: npt.NDArray[np.int8] | None, Hz: npt.NDArray[np.int8] | None) -> None:  # noqa: N803
-- 
2.43.0


From 40116cefbd331008afe34242e63c338d649974a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 28/80] fix: bivariate bicycle code on 90 qubits has distance
 10

---
 src/mqt/qecc/codes/bb_codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/bb_codes.py b/src/mqt/qecc/codes/bb_codes.py
index 049bcdf..09279ea 100644
--- a/src/mqt/qecc/codes/bb_codes.py
+++ b/src/mqt/qecc/codes/bb_codes.py
@@ -67,7 +67,7 @@ def _cyclic_matrix_sum(x_terms: list[int], y_terms: list[int], l_: int, m: int)
 
 
 def _cyclic_code_check_matrix(
-    m: int, l_: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
+    l_: int, m: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
 ) -> tuple[npt.NDArray[np.int8], npt.NDArray[np.int8]]:
     a = _cyclic_matrix_sum(a_terms[0], a_terms[1], l_, m) % 2
     b = _cyclic_matrix_sum(b_terms[0], b_terms[1], l_, m) % 2
-- 
2.43.0


From e95c1e37650cecf990e45aa1a49b0ee8c864019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 29/80] fix: ColorCode.check_if_logical_error finds logical
 errors

---
 src/mqt/qecc/codes/color_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/color_code.py b/src/mqt/qecc/codes/color_code.py
index 3f65069..8d94c97 100644
--- a/src/mqt/qecc/codes/color_code.py
+++ b/src/mqt/qecc/codes/color_code.py
@@ -63,4 +63,4 @@ class ColorCode(CSSCode):
 
     def check_if_logical_error(self, residual: npt.NDArray[np.int_]) -> bool:
         """Check if the residual is a logical error."""
-        return (self.L @ residual % 2).any() is True
+        return bool((self.L @ residual % 2).any())
-- 
2.43.0


From fb41f15682de48314c23aa8cb7a055cb2099c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 30/80] fix: light patterns can be solved after one without a
 solution

---
 src/mqt/qecc/cc_decoder/decoder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/cc_decoder/decoder.py b/src/mqt/qecc/cc_decoder/decoder.py
index deb4294..6ff7611 100644
--- a/src/mqt/qecc/cc_decoder/decoder.py
+++ b/src/mqt/qecc/cc_decoder/decoder.py
@@ -109,7 +109,11 @@ class LightsOut:
             start = timer()
             result = self.optimizer.check()
             solve_time = timer() - start
-            assert str(result) == "sat", "No solution found"
+            if str(result) != "sat":
+                # the constraints of this pattern must not remain for later patterns
+                self.optimizer.pop()
+                msg = "No solution found"
+                raise AssertionError(msg)
 
             # validate the model
             model = self.optimizer.model()
-- 
2.43.0


From e37d4b4a7072998aecd6d8db69be107c3ec4662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 31/80] fix: heuristic state preparation does not permute
 qubits at a local minimum

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dd1c80e..594e461 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -229,7 +229,7 @@ def heuristic_prep_circuit(code: CSSCode, optimize_depth: bool = True, zero_stat
         if np.all(costs_unused >= 0) or len(used_qubits) == checks.shape[1]:  # no more reductions possible
             if not used_qubits:  # local minimum => get out by making matrix triangular
                 logging.warning("Local minimum reached. Making matrix triangular.")
-                checks = mod2.reduced_row_echelon(checks)[0]
+                checks = mod2.row_echelon(checks, full=True)[0]
                 costs = np.array([
                     [np.sum((checks[:, i] + checks[:, j]) % 2) for j in range(checks.shape[1])]
                     for i in range(checks.shape[1])
-- 
2.43.0


From d433d6a9616490c00a396de2549529b9c101e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 32/80] fix: optimal state preparation of codes with redundant
 checks

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 594e461..be46500 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -402,6 +402,8 @@ def _optimal_circuit(
         msg = "Code must have both X and Z stabilizers defined."
         raise ValueError(msg)
     checks = code.Hx if zero_state else code.Hz
+    # redundant checks would leave too few columns to eliminate
+    checks = mod2.row_basis(checks)
 
     def fun(param: int) -> QuantumCircuit | None:
         return prep_func(checks, param, zero_state)
-- 
2.43.0


From 9d5a6c1061f5445c841c05a18f5317b09a7d890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 33/80] fix: optimal state preparation with at most one CNOT

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index be46500..d337905 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -405,6 +405,10 @@ def _optimal_circuit(
     # redundant checks would leave too few columns to eliminate
     checks = mod2.row_basis(checks)
 
+    if np.count_nonzero(checks.any(axis=0)) == checks.shape[0]:  # no CNOTs required
+        return StatePrepCircuit(_build_circuit_from_list_and_checks([], checks, zero_state), code, zero_state)
+    min_param = max(min_param, 1)
+
     def fun(param: int) -> QuantumCircuit | None:
         return prep_func(checks, param, zero_state)
 
@@ -426,7 +430,7 @@ def _optimal_circuit(
     # Solving a SAT instance is much faster than proving unsat in this case
     # so we iterate backwards until we find an unsat instance or hit a timeout
     logging.info("Trying to minimize param")
-    while True:
+    while curr_param > 1:
         logging.info(f"Trying param {curr_param - 1}")
         opt_res = _run_with_timeout(fun, curr_param - 1, timeout=max_timeout)
         if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):
-- 
2.43.0


From c2c273a717bd51b8836f34c4ce8cf7516d1161df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 34/80] fix: fault sets contain the faults in front of a CNOT
 of a propagating qubit

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index d337905..dfeb3ac 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1191,7 +1191,7 @@ def _propagate_error(nodes: list[DAGNode], n_qubits: int, x_errors: bool = True)
     error: npt.NDArray[np.int8] = np.array([0] * n_qubits, dtype=np.int8)
     error[control] = 1
     # propagate error through circuit via bfs
-    for node in nodes[1:]:
+    for node in nodes:
         control = node.qargs[0]._index  # noqa: SLF001
         target = node.qargs[1]._index  # noqa: SLF001
         if x_errors:
-- 
2.43.0


From 4a8801d3fe4876b159b771cd8f0848d54226a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 35/80] fix: hook errors of verification measurements affect
 all later CNOTs

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dfeb3ac..7e4ed32 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1614,5 +1614,4 @@ def _hook_errors(stabs: list[npt.NDArray[np.int8]]) -> npt.NDArray[np.int8]:
             if stab[i] == 1:
                 error[i] = 0
                 errors.append(error.copy())
-                error[i] = 1
     return np.array(errors)
-- 
2.43.0


From e8a6403cec51030aca5f706846ace494abb28293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 36/80] fix: flagged measurement of a single qubit measures
 that qubit

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 7e4ed32..64486e1 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1339,6 +1339,10 @@ def measure_flagged(
         z_measurement: Whether to measure an X (False) or Z (True) stabilizer.
     """
     w = len(stab)
+    if w == 1 and t == 1:
+        _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
+        return
+
     if t == 1:
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
-- 
2.43.0


From f23734261824bd45fa03b6fc648911a76e046ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 37/80] fix: stabilizers of weight three can be measured with
 two faults

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 64486e1..85d5dd7 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1347,7 +1347,7 @@ def measure_flagged(
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-    if w < 3 and t == 2:
+    if w < 4 and t == 2:
         _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-- 
2.43.0


From 413ec1f73b59f2d67a1da1aecffbd753dd41b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 38/80] fix: two-flagged measurement of stabilizers of weight
 7, 9 and more

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 85d5dd7..6f1148e 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1435,17 +1435,17 @@ def measure_stab_two_flagged(
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
 
     cnots = 2
-    flags = 2
     for q in stab[2:-2]:
         _ancilla_cnot(qc, q, ancilla, z_measurement)
         cnots += 1
         if cnots % 2 == 0 and cnots < len(stab) - 2:
-            _flag_init(qc, flag_reg[flags], z_measurement)
-            _ancilla_cnot(qc, flag_reg[flags], ancilla, z_measurement)
+            flag = cnots // 2
+            _flag_init(qc, flag_reg[flag], z_measurement)
+            _ancilla_cnot(qc, flag_reg[flag], ancilla, z_measurement)
         if cnots >= 7 and cnots % 2 == 1:
-            _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-            _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
-        flags += 1
+            flag = (cnots - 3) // 2  # every flag spans three data qubits
+            _ancilla_cnot(qc, flag_reg[flag], ancilla, z_measurement)
+            _flag_measure(qc, flag_reg[flag], meas_reg[flag], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[0], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[0], meas_reg[0], z_measurement)
@@ -1454,8 +1454,9 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        flag = (cnots - 3) // 2
+        _ancilla_cnot(qc, flag_reg[flag], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[flag], meas_reg[flag], z_measurement)
 
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[1], meas_reg[1], z_measurement)
@@ -1464,8 +1465,9 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        flag = (cnots - 3) // 2
+        _ancilla_cnot(qc, flag_reg[flag], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[flag], meas_reg[flag], z_measurement)
     if not z_measurement:
         qc.h(ancilla)
 
-- 
2.43.0


From 5abe0af7a15316da139e258d8b5423c589374883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:04 +0000
Subject: [PATCH 39/80] fix: CNOTs on uninitialized qubits take part in the
 propagation of faults

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 6f1148e..bb7be0f 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -92,7 +92,7 @@ class StatePrepCircuit:
         if num_errors == 1:
             logging.info("Computing fault set for 1 error.")
             dag = circuit_to_dag(self.circ)
-            for node in dag.front_layer():  # remove hadamards
+            for node in dag.named_nodes("h"):  # remove hadamards
                 dag.remove_op_node(node)
             fault_list = []
             # propagate every error before a control
-- 
2.43.0


From bb77a00e9a1de65077f6cc450810b7f76137d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 40/80] fix: verification measurements may overlap with a fault
 on any odd number of qubits

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index bb7be0f..e77cd8a 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1105,7 +1105,11 @@ def _symbolic_vector_add(
 
 def _odd_overlap(v_sym: npt.NDArray[z3.BoolRef | bool], v_con: npt.NDArray[np.int8]) -> z3.BoolRef:
     """Return True if the overlap of symbolic vector with constant vector is odd."""
-    return z3.PbEq([(v_sym[i], 1) for i, c in enumerate(v_con) if c == 1], 1)
+    parity = z3.BoolVal(False)
+    for i, c in enumerate(v_con):
+        if c == 1:
+            parity = z3.Xor(parity, v_sym[i])
+    return z3.simplify(parity)
 
 
 def _symbolic_vector_eq(v1: npt.NDArray[z3.BoolRef | bool], v2: npt.NDArray[z3.BoolRef | bool]) -> z3.BoolRef:
-- 
2.43.0


From d3e980cfd92f81e0cd2de77cab290a0a337389ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 41/80] fix: unused ancillas do not become verification
 measurements after a timeout

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index e77cd8a..a88b6bd 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -693,7 +693,7 @@ def gate_optimal_verification_stabilizers(
             num_anc -= 1
             measurements = anc_opt
         logging.info(f"Minimal number of ancillas for {num_errors} errors is: {num_anc}")
-        layers[num_errors - 1] = measurements
+        layers[num_errors - 1] = [m for m in measurements if np.any(m)]
 
     return layers
 
-- 
2.43.0


From 5b26e58c2e0de0944136f1d73d8be6d590000c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 42/80] fix: LutDecoder shares its tables only between equal
 check matrices and never loses them

---
 src/mqt/qecc/ft_stateprep/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 6759632..d1fb94b 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -376,7 +376,7 @@ class LutDecoder:
 
         assert self.code.Hz is not None, "The code does not have a Z stabilizer matrix."
         self.x_lut = LutDecoder._generate_lut(self.code.Hz)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.z_lut = self.x_lut
 
     def generate_z_lut(self) -> None:
@@ -386,8 +386,8 @@ class LutDecoder:
 
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
-        if self.code.is_self_dual():
-            self.z_lut = self.x_lut
+        if np.array_equal(self.code.Hx, self.code.Hz):
+            self.x_lut = self.z_lut
 
     @staticmethod
     def _generate_lut(checks: npt.NDArray[np.int_]) -> dict[bytes, npt.NDArray[np.int_]]:
-- 
2.43.0


From cf24552d55028f7de32c559df7e3f24b02bc53ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 43/80] fix: logical_error_rate returns the number of shots it
 simulated

---
 src/mqt/qecc/ft_stateprep/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index d1fb94b..84fc696 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -242,8 +242,10 @@ class NoisyNDFTStatePrepSimulator:
             self.decoder.generate_z_lut()
 
         i = 1
+        num_shots = 0
         while i <= int(np.ceil(shots / batch)) or at_least_min_errors:
             num_logical_errors_batch, discarded_batch = self._simulate_batch(batch)
+            num_shots += batch
 
             logging.log(
                 logging.INFO,
@@ -262,7 +264,7 @@ class NoisyNDFTStatePrepSimulator:
                 break
             i += 1
 
-        return p_l / self.code.k, r_a, num_logical_errors, i * batch
+        return p_l / self.code.k, r_a, num_logical_errors, num_shots
 
     def _simulate_batch(self, shots: int = 1024) -> tuple[int, int]:
         sampler = self.stim_circ.compile_sampler()
-- 
2.43.0


From ec2045a789655cdceb8541bd4b2781ef2b4d6c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 44/80] fix: logical_error_rate divides the errors by all
 accepted shots

---
 src/mqt/qecc/ft_stateprep/simulation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 84fc696..537df64 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -231,10 +231,10 @@ class NoisyNDFTStatePrepSimulator:
             min_errors: The minimum number of errors to find before stopping.
         """
         batch = min(shots_per_batch, shots)
-        p_l = 0.0
         r_a = 0.0
 
         num_logical_errors = 0
+        num_accepted = 0
 
         if self.zero_state:
             self.decoder.generate_x_lut()
@@ -251,19 +251,18 @@ class NoisyNDFTStatePrepSimulator:
                 logging.INFO,
                 f"Batch {i}: {num_logical_errors_batch} logical errors and {discarded_batch} discarded shots. {batch - discarded_batch} shots used.",
             )
-            p_l_batch = num_logical_errors_batch / (batch - discarded_batch) if discarded_batch != batch else 0.0
-            p_l = ((i - 1) * p_l + p_l_batch) / i
-
             r_a_batch = 1 - discarded_batch / batch
 
             # Update statistics
             num_logical_errors += num_logical_errors_batch
+            num_accepted += batch - discarded_batch
             r_a = ((i - 1) * r_a + r_a_batch) / i
 
             if at_least_min_errors and num_logical_errors >= min_errors:
                 break
             i += 1
 
+        p_l = num_logical_errors / num_accepted if num_accepted != 0 else 0.0
         return p_l / self.code.k, r_a, num_logical_errors, num_shots
 
     def _simulate_batch(self, shots: int = 1024) -> tuple[int, int]:
-- 
2.43.0


From 14a0a97790b1c2680687cd0b6c44f1e34b48e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 45/80] fix: the simulated data qubits are the qubits of the
 code

---
 src/mqt/qecc/ft_stateprep/simulation.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 537df64..f783f65 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -45,7 +45,7 @@ class NoisyNDFTStatePrepSimulator:
             raise InvalidCSSCodeError(msg)
 
         self.circ = state_prep_circ
-        self.num_qubits = state_prep_circ.num_qubits
+        self.num_qubits = code.n
         self.code = code
         self.p = p
         self.zero_state = zero_state
@@ -77,13 +77,7 @@ class NoisyNDFTStatePrepSimulator:
         self.data_measurements = []
         self.n_measurements = 0
         self.p = p
-        self._reused_qubits = 0
         self.stim_circ = self.to_stim_circ()
-        self.num_qubits = (
-            self.stim_circ.num_qubits
-            - (len(self.x_verification_measurements) + len(self.z_verification_measurements))
-            + self._reused_qubits
-        )
         self.measure_stabilizers()
         if self.zero_state:
             self.measure_z()
@@ -113,7 +107,6 @@ class NoisyNDFTStatePrepSimulator:
         layers = dag.layers()
         used_qubits: list[int] = []
         targets = set()
-        measured: defaultdict[int, int] = defaultdict(int)
         for layer in layers:
             layer_circ = dag_to_circuit(layer["graph"])
 
@@ -170,9 +163,6 @@ class NoisyNDFTStatePrepSimulator:
                     else:
                         used_qubits.append(anc)
                     initialized[anc] = False
-                    measured[anc] += 1
-                    if measured[anc] == 2:
-                        self._reused_qubits += 1
 
         return stim_circuit
 
-- 
2.43.0


From eb1c497554a54e41562467afa4c1a064776c0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 46/80] fix: the ancillas of the final stabilizer measurements
 are not data qubits

---
 src/mqt/qecc/ft_stateprep/simulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index f783f65..e8f53d7 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -174,9 +174,10 @@ class NoisyNDFTStatePrepSimulator:
         assert self.code.Hx is not None
         assert self.code.Hz is not None
 
-        for check in self.code.Hx:
+        first_anc = max(self.stim_circ.num_qubits, self.circ.num_qubits, self.num_qubits)
+        for i, check in enumerate(self.code.Hx):
             supp = _support(check)
-            anc = self.stim_circ.num_qubits
+            anc = first_anc + i
             self.stim_circ.append_operation("H", [anc])
             for q in supp:
                 self.stim_circ.append_operation("CX", [anc, q])
@@ -184,9 +185,10 @@ class NoisyNDFTStatePrepSimulator:
             self.x_measurements.append(self.n_measurements)
             self.n_measurements += 1
 
-        for check in self.code.Hz:
+        first_anc += len(self.code.Hx)
+        for i, check in enumerate(self.code.Hz):
             supp = _support(check)
-            anc = self.stim_circ.num_qubits
+            anc = first_anc + i
             for q in supp:
                 self.stim_circ.append_operation("CX", [q, anc])
             self.stim_circ.append_operation("MRZ", [anc])
-- 
2.43.0


From cfbfd1da42ab4aa2c210f05bbd179d0968932744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 47/80] fix: simulated qubits prepared in the plus state keep
 their Hadamard gate

---
 src/mqt/qecc/ft_stateprep/simulation.py | 27 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index e8f53d7..5d8b626 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -95,7 +95,7 @@ class NoisyNDFTStatePrepSimulator:
         """
         initialized = [False for _ in self.circ.qubits]
         stim_circuit = stim.Circuit()
-        ctrls = []
+        plus: set[int] = set()  # uninitialized qubits that are prepared in the |+> state
 
         def idle_error(used_qubits: list[int]) -> None:
             for q in self.circ.qubits:
@@ -118,8 +118,9 @@ class NoisyNDFTStatePrepSimulator:
             for gate in layer_circ.data:
                 if gate.operation.name == "h":
                     qubit = self.circ.find_bit(gate.qubits[0])[0]
-                    ctrls.append(qubit)
-                    if initialized[qubit]:
+                    if not initialized[qubit]:
+                        plus ^= {qubit}
+                    else:
                         stim_circuit.append_operation("H", [qubit])
                         stim_circuit.append_operation("DEPOLARIZE1", [qubit], [2 * self.p / 3])
                         if not self.parallel_gates:
@@ -131,16 +132,16 @@ class NoisyNDFTStatePrepSimulator:
                     ctrl = self.circ.find_bit(gate.qubits[0])[0]
                     target = self.circ.find_bit(gate.qubits[1])[0]
                     targets.add(target)
-                    if not initialized[ctrl]:
-                        if ctrl in ctrls:
-                            stim_circuit.append_operation("H", [ctrl])
-                            stim_circuit.append_operation("Z_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
+                    for qubit in (ctrl, target):
+                        if initialized[qubit]:
+                            continue
+                        if qubit in plus:
+                            stim_circuit.append_operation("H", [qubit])
+                            stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+                            plus.remove(qubit)
                         else:
-                            stim_circuit.append_operation("X_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        initialized[ctrl] = True
-                    if not initialized[target]:
-                        stim_circuit.append_operation("X_ERROR", [target], [2 * self.p / 3])  # Wrong initialization
-                        initialized[target] = True
+                            stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+                        initialized[qubit] = True
 
                     stim_circuit.append_operation("CX", [ctrl, target])
                     stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])
@@ -164,6 +165,8 @@ class NoisyNDFTStatePrepSimulator:
                         used_qubits.append(anc)
                     initialized[anc] = False
 
+        for qubit in sorted(plus):  # qubits that take part in no CNOT
+            stim_circuit.append_operation("H", [qubit])
         return stim_circuit
 
     def measure_stabilizers(self) -> None:
-- 
2.43.0


From 030440cf53dc58f97daa2b149bb057503cdfb90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 48/80] fix: flagged Z verification measurements are read out
 once

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index a88b6bd..64d312a 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -961,7 +961,8 @@ def _measure_ft_z(qc: QuantumCircuit, z_measurements: list[npt.NDArray[np.int8]]
             measure_flagged(qc, stab, z_anc[i], z_c[i], z_measurement=True, t=t)
         else:
             qc.cx(stab, [z_anc[i]] * len(stab))
-    qc.measure(z_anc, z_c)
+    if not flags:
+        qc.measure(z_anc, z_c)
 
 
 def _measure_ft_stabs(
-- 
2.43.0


From e7847a9bd5ba143f3a590584eb4356bc740ea0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 49/80] fix: QssSimulator decodes hard syndromes

---
 .../simulators/quasi_single_shot_v2.py                | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 78183ba..5e7e3cf 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -154,6 +154,8 @@ class QssSimulator:
             self.sigma = get_sigma_from_syndr_er(
                 self.syndr_err_channel[0]  # x/z + y
             )  # assumes all sigmas are the same
+        else:
+            self.sigma = 0.0
         self.bp_iterations = 0
         if self.decoding_method == "bposd":
             self.decoder = bposd_decoder(
@@ -173,7 +175,7 @@ class QssSimulator:
     def _decode_multiround(
         self,
         syndrome_mat: NDArray[np.int_],
-        analog_syndr_mat: NDArray[np.float64],
+        analog_syndr_mat: NDArray[np.float64] | None,
         last_round: bool = False,
     ) -> tuple[Any, NDArray[np.int32], NDArray[np.float64], int]:
         return decode_multiround(
@@ -195,8 +197,9 @@ class QssSimulator:
         # each column == measurement result of a single timestep
         syndrome_mat: NDArray[np.int32] = np.zeros((self.num_checks, self.repetitions), dtype=np.int32)
 
+        analog_syndr_mat: NDArray[np.float64] | None = None
         if self.analog_tg:
-            analog_syndr_mat: NDArray[np.float64] = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
+            analog_syndr_mat = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
 
         err: NDArray[np.int32] = np.zeros(self.num_qubits, dtype=np.int32)
         cnt = 0  # counter for syndrome_mat
@@ -228,7 +231,7 @@ class QssSimulator:
 
             # fill the corresponding column of the syndrome/analog syndrome matrix
             syndrome_mat[:, cnt] += syndrome
-            if self.analog_tg:
+            if analog_syndr_mat is not None:
                 analog_syndr_mat[:, cnt] += analog_syndrome
 
             cnt += 1  # move to next column of syndrome matrix
@@ -247,7 +250,7 @@ class QssSimulator:
                     self.bp_iterations += int(bp_iters / self.rounds)
                     err = (err + corr) % 2
                     syndrome_mat = move_syndrome(syndrome_mat)
-                    if self.analog_tg:
+                    if analog_syndr_mat is not None:
                         analog_syndr_mat = move_syndrome(analog_syndr_mat, data_type=np.float64)
 
                 else:  # if we are in the last round, decode and stop
-- 
2.43.0


From 1fe18af52fc599b79f8ba0dae7c8101e06839691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 50/80] fix: overlapping window decoding does not apply the
 time correction twice

---
 .../simulators/memory_experiment_v2.py               | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index b4ea3de..c957913 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -131,15 +131,8 @@ def decode_multiround(
 
     # extract space correction, first repetitions * n entire
     space_correction = decoded[: pcm.shape[1] * repetitions].reshape((repetitions, pcm.shape[1])).T
-    # extract time correction
 
     if last_round is False:
-        # this corresponds to the decoding on the second block of the H3D matrix
-        time_correction = decoded[pcm.shape[1] * repetitions :].reshape((repetitions, pcm.shape[0])).T
-
-        # append time correction with zeros
-        time_correction = np.hstack((time_correction, np.zeros((pcm.shape[0], 1), dtype=np.int32)))
-
         # correct only in the commit region
         decoded = (np.cumsum(space_correction, 1) % 2)[:, region_size - 1]
 
@@ -149,11 +142,6 @@ def decode_multiround(
         # propagate the syndrome correction through the tentative region
         syndrome[:, region_size:] = ((syndrome[:, region_size:] + corr_syndrome[:, None]) % 2).astype(np.int32)
 
-        # apply the time correction of round region_size - 1 to the syndrome at the beginning of the tentative region
-        syndrome[:, region_size] = ((syndrome[:, region_size] + time_correction[:, region_size - 1]) % 2).astype(
-            np.int32
-        )
-
     else:
         # correct in the commit and tentative region as the last round stabilizer is perfect
         decoded = (np.cumsum(space_correction, 1) % 2)[:, -1]
-- 
2.43.0


From 09a9199054decb8930a5ba10230a11b5fdb04ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 51/80] fix: SingleShotSimulator writes its result file

---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 3365460..709ba3d 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -700,7 +700,7 @@ class SingleShotSimulator:
         output.update(self.input_values)
         output["bias"] = replace_inf(output["bias"])  # type: ignore[assignment, arg-type]
 
-        with Path(self.outfile).open(encoding=locale.getpreferredencoding(False)) as f:
+        with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             f.write(
                 json.dumps(
                     output,
-- 
2.43.0


From 51edd089c4ebc88d53a7c8c0a05d8a83edbc85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 52/80] fix: SingleShotSimulator decodes hard syndromes in a
 single stage

---
 .../qecc/analog_information_decoding/simulators/simulation.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 709ba3d..72edfe2 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -135,6 +135,9 @@ class SingleShotSimulator:
         if self.analog_info or self.analog_tg:
             self.sigma_x = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])
             self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])
+        else:
+            self.sigma_x = 0.0
+            self.sigma_z = 0.0
 
         # if we want to decode with the analog tanner graph method construct respective matrices.
         # These are assumed to exist in the *_setup() methods
-- 
2.43.0


From 3c6b02fd5683110e673023d38830336e45e9b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 53/80] fix: two-stage analog decoding uses the error channel
 of the decoded side

---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 72edfe2..ce556b3 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -427,14 +427,14 @@ class SingleShotSimulator:
                 decoder=self.x_abpd,
                 hard_syndrome=x_syndrome_repaired,
                 analog_syndrome=x_syndrome_w_err,
-                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_x,
             )
             z_decoded = self._analog_tg_decoding(
                 decoder=self.z_abpd,
                 hard_syndrome=z_syndrome_repaired,
                 analog_syndrome=z_syndrome_w_err,
-                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_z,
             )
         else:
-- 
2.43.0


From d0db72442114ee1e36c33247b80cf72590261175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 54/80] fix: two-stage analog decoding thresholds analog
 syndromes without meta checks

---
 .../simulators/simulation.py                      | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index ce556b3..8c4fa81 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -411,7 +411,7 @@ class SingleShotSimulator:
                 m_bp=self.mz_bp,
             )
         else:
-            z_syndrome_repaired = np.copy(z_syndrome_w_err).astype(np.int32)
+            z_syndrome_repaired = self._get_hard_syndrome(z_syndrome_w_err)
 
         if self.z_meta and self.Mz is not None:
             x_syndrome_repaired = self._meta_code_decoding(
@@ -420,7 +420,7 @@ class SingleShotSimulator:
                 m_bp=self.mx_bp,
             )
         else:
-            x_syndrome_repaired = np.copy(x_syndrome_w_err).astype(np.int32)
+            x_syndrome_repaired = self._get_hard_syndrome(x_syndrome_w_err)
 
         if self.analog_tg:  # decode with analog tg method - update channel probs to init analog nodes
             x_decoded = self._analog_tg_decoding(
@@ -443,6 +443,12 @@ class SingleShotSimulator:
 
         return x_decoded, z_decoded
 
+    def _get_hard_syndrome(self, syndrome: NDArray[Any]) -> NDArray[np.int32]:
+        """Returns the binary syndrome, thresholded if it is analog."""
+        if self.analog_info or self.analog_tg:
+            return get_binary_from_analog(syndrome)
+        return np.copy(syndrome).astype(np.int32)
+
     def _meta_code_decoding(
         self,
         syndrome_w_err: NDArray[np.float64],
@@ -455,10 +461,7 @@ class SingleShotSimulator:
         the meta code. The binary syndrome is repaired according to the meta code and a binary,
         repaired syndrome is returned.
         """
-        if self.analog_info or self.analog_tg:
-            syndrome_w_err_binary = get_binary_from_analog(syndrome_w_err)
-        else:
-            syndrome_w_err_binary = np.copy(syndrome_w_err)
+        syndrome_w_err_binary = self._get_hard_syndrome(syndrome_w_err)
 
         meta_syndrome = (meta_pcm @ syndrome_w_err_binary) % 2
         meta_decoded = m_bp.decode(meta_syndrome)
-- 
2.43.0


From 9d46f56247cffdf3a8100aeb75052e90543fef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 55/80] fix: analog syndromes are analog values without
 syndrome noise as well

---
 .../simulators/simulation.py                    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 8c4fa81..e0d122f 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -235,15 +235,14 @@ class SingleShotSimulator:
     def _get_noisy_syndrome(
         self, x_syndrome: NDArray[np.int32], z_syndrome: NDArray[np.int32]
     ) -> tuple[NDArray[Any], NDArray[Any]]:
-        if self.syndr_err_rate != 0.0:
-            if self.analog_info or self.analog_tg:  # analog syndrome error with converted sigma
-                x_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=x_syndrome, sigma=self.sigma_x)
-                z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)
-            else:  # usual pauli error channel syndrome error
-                x_syndrome_err = generate_syndr_err(channel_probs=self.x_syndr_error_channel)
-                x_syndrome_w_err = (x_syndrome + x_syndrome_err) % 2
-                z_syndrome_err = generate_syndr_err(channel_probs=self.z_syndr_error_channel)
-                z_syndrome_w_err = (z_syndrome + z_syndrome_err) % 2
+        if self.analog_info or self.analog_tg:  # analog syndrome error with converted sigma
+            x_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=x_syndrome, sigma=self.sigma_x)
+            z_syndrome_w_err = get_noisy_analog_syndrome(perfect_syndr=z_syndrome, sigma=self.sigma_z)
+        elif self.syndr_err_rate != 0.0:  # usual pauli error channel syndrome error
+            x_syndrome_err = generate_syndr_err(channel_probs=self.x_syndr_error_channel)
+            x_syndrome_w_err = (x_syndrome + x_syndrome_err) % 2
+            z_syndrome_err = generate_syndr_err(channel_probs=self.z_syndr_error_channel)
+            z_syndrome_w_err = (z_syndrome + z_syndrome_err) % 2
         else:
             x_syndrome_w_err = np.copy(x_syndrome)
             z_syndrome_w_err = np.copy(z_syndrome)
-- 
2.43.0


From 6a00a28d421412ad4fea65d7d512171e2a962e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 56/80] fix: without logicals a residual error is compared with
 the stabilizers of its type

---
 .../analog_information_decoding/simulators/simulation.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index e0d122f..a1cc176 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -222,13 +222,13 @@ class SingleShotSimulator:
 
         # check for logical errors
         # check if residual X-error commutes with Z-logical and vice versa
-        # equivalently, check if residual X-error is in rowspace of Hz and vice versa
+        # equivalently, check if residual X-error is in rowspace of Hx and vice versa
         if self._check_logicals:
             is_x_logical_error = is_logical_err(self.lz, x_residual_err)
             is_z_logical_error = is_logical_err(self.lx, z_residual_err)
         else:
-            is_x_logical_error = check_logical_err_h(self.Hz, x_err, x_residual_err)
-            is_z_logical_error = check_logical_err_h(self.Hx, z_err, z_residual_err)
+            is_x_logical_error = check_logical_err_h(self.Hx, x_err, x_decoded)
+            is_z_logical_error = check_logical_err_h(self.Hz, z_err, z_decoded)
 
         return is_x_logical_error, is_z_logical_error
 
-- 
2.43.0


From d17510ed6f6d22cd5098ac2d095b3396706476e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 57/80] fix: AtdSimulator writes its result file for any bias

---
 .../simulators/analog_tannergraph_decoding.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index a85807f..5c5a0f5 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -15,6 +15,7 @@ from ..utils.data_utils import (
     BpParams,
     calculate_error_rates,
     is_converged,
+    replace_inf,
 )
 
 if TYPE_CHECKING:
@@ -305,6 +306,7 @@ class AtdSimulator:
         }
 
         output.update(self.input_values)
+        output["bias"] = replace_inf(output["bias"])  # type: ignore[arg-type]
         with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             json.dump(output, f, ensure_ascii=False, indent=4, default=lambda o: o.__dict__)
         return output
-- 
2.43.0


From c6087de9dd68999e7e7524630685eca9d8b9f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 58/80] fix: AtdSimulator supports noise without syndrome
 errors on one side

---
 .../simulators/analog_tannergraph_decoding.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index 5c5a0f5..b7347b1 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -185,13 +185,13 @@ class AtdSimulator:
         self.x_decoder = Decoder(
             error_channel=self.full_error_channel[0] + self.full_error_channel[1],  # x + y errors
             pcm=self.Hz,
-            sigma=self.x_sigma,
+            ser=x_synd_err_rate,
             bp_params=self.bp_params,
         )
         self.z_decoder = Decoder(
             error_channel=self.full_error_channel[2] + self.full_error_channel[1],  # z + y errors
             pcm=self.Hx,
-            sigma=self.z_sigma,
+            ser=z_synd_err_rate,
             bp_params=self.bp_params,
         )
         self.x_bp_iterations = 0
-- 
2.43.0


From f1b7ae2836284e9e44ee57c22ed85ff04bf45c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 59/80] fix: result files in relative folders are merged

---
 .../utils/data_utils.py                       | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index edfde22..8363d91 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -365,15 +365,13 @@ def merge_json_files(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
-        for filename in folder_path.iterdir():
-            if filename.suffix == ".json":
-                file_path = folder_path / filename
+        for file_path in folder_path.iterdir():
+            if file_path.suffix == ".json":
                 with file_path.open() as file:
                     try:
                         json_data = json.load(file)
@@ -405,15 +403,14 @@ def merge_json_files_x(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
-        for filename in folder_path.iterdir():
-            if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+        for file_path in folder_path.iterdir():
+            if file_path.suffix == ".json":
+                with file_path.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -444,16 +441,15 @@ def merge_json_files_z(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
 
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
-        for filename in folder_path.iterdir():
-            if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+        for file_path in folder_path.iterdir():
+            if file_path.suffix == ".json":
+                with file_path.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -484,15 +480,14 @@ def merge_json_files_xz(input_path: str) -> None:
         None
     """
     output_data: list[dict[str, Any]] = []
-    for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+    for folder_path in Path(input_path).iterdir():
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
-        for filename in folder_path.iterdir():
-            if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+        for file_path in folder_path.iterdir():
+            if file_path.suffix == ".json":
+                with file_path.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
-- 
2.43.0


From b72cc5c4bff718194e890262e35ab7cab1ee1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 60/80] fix: combined results keep the merged X results

---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index 8363d91..09ad190 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -517,7 +517,8 @@ def _combine_xz_data(xdata: dict[str, Any] | None, zdata: dict[str, Any] | None)
         # print(xdata)
         xdata["x_runs"] = xdata.pop("nr_runs")
         zdata["z_runs"] = zdata.pop("nr_runs")
-        xdata.update(zdata)
+        # data sets with both sides carry unmerged X results in the Z data
+        xdata.update({key: value for key, value in zdata.items() if not key.startswith("x_")})
         return xdata
     if xdata:
         xdata["x_runs"] = xdata.pop("nr_runs")
-- 
2.43.0


From dc88d38e1c44b41e48a19ea329cf67cc673782a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 61/80] fix: simultaneous simulations do not share a result
 file

---
 .../utils/data_utils.py                            | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index 09ad190..7b19918 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -162,12 +162,14 @@ def create_outpath(
     Path(path).mkdir(parents=True, exist_ok=True)
 
     f_loc = path + f"id_{identifier}.json"
-    while Path(f_loc).exists():
-        identifier += 1
-        f_loc = path + f"id_{identifier}.json"
-
-    Path(f_loc).touch()
-    return f_loc
+    while True:
+        try:
+            Path(f_loc).touch(exist_ok=False)
+        except FileExistsError:
+            identifier += 1
+            f_loc = path + f"id_{identifier}.json"
+        else:
+            return f_loc
 
 
 def replace_inf(lst: list[str]) -> list[str]:
-- 
2.43.0


From e0722439f7711fc5b8355cffef4f002a9b3fbd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 62/80] fix: sparse product codes are saved without logicals as
 well

---
 .../code_construction/sparse_code_constructor.py                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 66c2d8a..9ffd443 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -205,6 +205,8 @@ def create_code(
     if compute_logicals:
         lx, lz = code_constructor._compute_logicals(hx.todense(), hz.todense())  # noqa: SLF001
         save_code(hx=hx, hz=hz, mz=mz, codename=codename, lx=lx, lz=lz)
+    else:
+        save_code(hx=hx, hz=hz, mz=mz, codename=codename)
 
     if compute_distance:
         _compute_distances(hx.todense(), hz.todense(), codename)
-- 
2.43.0


From c9aab85195b4443e724df9181c5de88220d3443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 63/80] fix: the parameters of sparse product codes can be
 stored

---
 .../code_construction/sparse_code_constructor.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 9ffd443..4f2bf04 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -212,4 +212,4 @@ def create_code(
         _compute_distances(hx.todense(), hz.todense(), codename)
 
     else:
-        _store_code_params(hx.todense(), hz.todense(), codename)
+        _store_code_params(hx, hz, codename)
-- 
2.43.0


From bb6e78014e66f9c4c5f44a47859cfc8c84efc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 64/80] fix: the distance script names the meta distances as
 they are read

---
 .../code_construction/compute_distances.sh                    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh b/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
index 2b6e4b5..7b339f0 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
@@ -47,7 +47,7 @@ zcode := CheckMatCode(parityCheckMatrix, GF(2));
 
 
 # Print("dMx = ", MinimumDistance(xcode), "\n"); only works for small codes quickly
-Print("dMx = ", MinimumDistanceLeon(xcode), "\n"); #https://gap-packages.github.io/guava/doc/chap4_mj.html#X8170B52D7C154247:~:text=4.8%2D4%20MinimumDistanceLeon
-Print("dMz = ", MinimumDistanceLeon(zcode), "\n");
+Print("dMX = ", MinimumDistanceLeon(xcode), "\n"); #https://gap-packages.github.io/guava/doc/chap4_mj.html#X8170B52D7C154247:~:text=4.8%2D4%20MinimumDistanceLeon
+Print("dMZ = ", MinimumDistanceLeon(zcode), "\n");
 
 EOF
-- 
2.43.0


From 5f5f1a6d9e116f64ea4f894acd7dab2787900f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 65/80] fix: added measurements are reported also if the
 circuit has classical registers

---
 src/mqt/qecc/ecc_qiskit_wrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/ecc_qiskit_wrapper.py b/src/mqt/qecc/ecc_qiskit_wrapper.py
index 058cdea..58ee23b 100644
--- a/src/mqt/qecc/ecc_qiskit_wrapper.py
+++ b/src/mqt/qecc/ecc_qiskit_wrapper.py
@@ -7,6 +7,7 @@ import locale
 import pathlib
 from typing import TYPE_CHECKING
 
+from qiskit import QuantumCircuit
 from qiskit.qasm2 import dump, load, loads
 from qiskit_aer import AerSimulator
 from qiskit_aer.noise import (
@@ -170,6 +171,9 @@ def main() -> None:
     if not any(gate.operation.name == "measure" for gate in circ.data):
         print("Warning: No measurement gates found in the circuit. Adding measurement gates to all qubits.")  # noqa: T201
         circ.measure_all()
+        # results are read from the first classical register
+        measured = QuantumCircuit(*circ.qregs, circ.cregs[-1], *circ.cregs[:-1])
+        circ = measured.compose(circ, circ.qubits, circ.clbits)
 
     # Initializing the quantum circuit
     if ecc is not None:
-- 
2.43.0


From 6bdafdc0292d07880a2254f3c4f4f41494470bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 66/80] fix: the wrapper reads all gates of encoded circuits

---
 src/mqt/qecc/ecc_qiskit_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ecc_qiskit_wrapper.py b/src/mqt/qecc/ecc_qiskit_wrapper.py
index 58ee23b..a9e1ad7 100644
--- a/src/mqt/qecc/ecc_qiskit_wrapper.py
+++ b/src/mqt/qecc/ecc_qiskit_wrapper.py
@@ -8,7 +8,7 @@ import pathlib
 from typing import TYPE_CHECKING
 
 from qiskit import QuantumCircuit
-from qiskit.qasm2 import dump, load, loads
+from qiskit.qasm2 import LEGACY_CUSTOM_INSTRUCTIONS, dump, load, loads
 from qiskit_aer import AerSimulator
 from qiskit_aer.noise import (
     NoiseModel,
@@ -166,7 +166,7 @@ def main() -> None:
     else:
         noise_model = NoiseModel()
 
-    circ = load(open_qasm_file)
+    circ = load(open_qasm_file, custom_instructions=LEGACY_CUSTOM_INSTRUCTIONS)
 
     if not any(gate.operation.name == "measure" for gate in circ.data):
         print("Warning: No measurement gates found in the circuit. Adding measurement gates to all qubits.")  # noqa: T201
@@ -179,7 +179,7 @@ def main() -> None:
     if ecc is not None:
         # Applying error correction to the circuit
         result = apply_ecc(circ, ecc, ecc_frequency)
-        circ = loads(result["circ"])
+        circ = loads(result["circ"], custom_instructions=LEGACY_CUSTOM_INSTRUCTIONS)
 
     if ecc_export_filename is not None:
         print("Exporting circuit to: " + str(ecc_export_filename))  # noqa: T201
-- 
2.43.0


From f4405b88c6ba3e14022c682b831abed20cae6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 67/80] fix: the second X verification of the Hamming |+>
 circuit starts with its Hadamard gate

---
 .../eval/circuits/hamming/plus_ft_heuristic_opt.qasm            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
index 19cae23..6d022ae 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
@@ -40,9 +40,9 @@ h x_anc[0];
 cx x_anc[0],q[5];
 cx x_anc[0],q[10];
 cx x_anc[0],q[12];
-cx x_anc[1],q[1];
 h x_anc[0];
 h x_anc[1];
+cx x_anc[1],q[1];
 cx x_anc[1],q[3];
 cx x_anc[1],q[8];
 cx x_anc[1],q[14];
-- 
2.43.0


From afa2d777ac9a3e9cf1a3d51d3504e79272addadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 68/80] fix: the stored surface code |0> preparation circuit
 can be read

---
 .../circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm    | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
index 201bb88..8299439 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
@@ -13,7 +13,3 @@ cx q[7],q[4];
 cx q[6],q[3];
 cx q[2],q[5];
 cx q[0],q[1];
-cx q[0],z_anc[0];
-cx q[2],z_anc[0];
-cx q[4],z_anc[0];
-cx q[5],z_anc[0];
-- 
2.43.0


From bcc11d4cd877d7e6f2083197fc0b3ffac6aac38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 69/80] fix: the stored non-FT Hamming |0> circuit does not
 contain a verification

---
 .../circuits/hamming/zero_non_ft_heuristic.qasm | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
index 67383fb..9c3baff 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
@@ -1,8 +1,6 @@
 OPENQASM 2.0;
 include "qelib1.inc";
 qreg q[15];
-qreg z_anc[2];
-creg z_c[2];
 h q[0];
 h q[1];
 h q[3];
@@ -29,18 +27,3 @@ cx q[5],q[13];
 cx q[4],q[12];
 cx q[2],q[10];
 cx q[6],q[14];
-cx q[0],z_anc[0];
-cx q[2],z_anc[0];
-cx q[4],z_anc[0];
-cx q[6],z_anc[0];
-cx q[7],z_anc[0];
-cx q[9],z_anc[0];
-cx q[11],z_anc[0];
-cx q[13],z_anc[0];
-cx q[5],z_anc[1];
-cx q[9],z_anc[1];
-cx q[12],z_anc[1];
-cx q[13],z_anc[1];
-cx q[14],z_anc[1];
-measure z_anc[0] -> z_c[0];
-measure z_anc[1] -> z_c[1];
-- 
2.43.0


From f1923783d78db272eaece50c1e39fce89439016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 70/80] fix: the stored surface code |+> circuits detect all
 weight-2 errors of single faults

---
 .../rotated_surface_d3/plus_ft_heuristic_heuristic.qasm        | 3 ++-
 .../rotated_surface_d3/plus_ft_heuristic_heuristic.stim        | 2 +-
 .../circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm     | 3 ++-
 .../circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim     | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
index d1e48ed..f05164d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[3];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
index 98e1b25..0f56339 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
@@ -1,4 +1,4 @@
 H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 3 9 4 9 5
 H 9
 MR 9
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
index d1e48ed..f05164d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[3];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
index 98e1b25..0f56339 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
@@ -1,4 +1,4 @@
 H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 3 9 4 9 5
 H 9
 MR 9
-- 
2.43.0


From 3b6f43a9b1e405057dca4a88da545e022913faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:22 +0000
Subject: [PATCH 71/80] fix: no verification is simulated if none is requested

---
 .../ft_stateprep/eval/estimate_logical_error_rate.py     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
index 8d5d7db..1c5553f 100644
--- a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
+++ b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
@@ -68,7 +68,10 @@ def main() -> None:
 
     state_name = "zero" if args.zero_state else "plus"
     ft_name = "non_ft" if args.no_ver else "ft"
-    circ_file = f"{state_name}_{ft_name}_{sp_circ_name}_{ver_circ_name}.qasm"
+    circ_file = f"{state_name}_{ft_name}_{sp_circ_name}"
+    if not args.no_ver:
+        circ_file += f"_{ver_circ_name}"
+    circ_file += ".qasm"
 
     # check if file exists
     if not (prefix / code_name / circ_file).exists():
@@ -80,7 +83,9 @@ def main() -> None:
             circ = heuristic_prep_circuit(code, zero_state=args.zero_state)
 
         assert circ is not None
-        if args.naive_ver:
+        if args.no_ver:
+            qc = circ.circ
+        elif args.naive_ver:
             qc = naive_verification_circuit(circ)
         elif args.exact_ver:
             qc = gate_optimal_verification_circuit(circ, max_timeout=600)
-- 
2.43.0


From 322808980453ba11ded0e5728f239982d9ea3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 72/80] fix: raise instead of dereferencing check matrices or
 codes that are not set

---
 include/Code.hpp    | 26 +++++++++++++++++++++++---
 include/Decoder.hpp | 18 ++++++++++++++++++
 src/UFDecoder.cpp   |  1 +
 src/UFHeuristic.cpp |  5 ++++-
 4 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/include/Code.hpp b/include/Code.hpp
index 3801275..4297e0a 100644
--- a/include/Code.hpp
+++ b/include/Code.hpp
@@ -112,6 +112,12 @@ private:
     std::unique_ptr<ParityCheckMatrix> hX;
     std::unique_ptr<ParityCheckMatrix> hZ;
 
+    static void assertPresent(const std::unique_ptr<ParityCheckMatrix>& h) {
+        if (!h || h->pcm->empty() || h->pcm->front().empty()) {
+            throw QeccException("Parity check matrix not set or empty");
+        }
+    }
+
 public:
     std::size_t n = 0U;
     std::size_t k = 0U;
@@ -127,10 +133,12 @@ public:
     }
 
     gf2Mat getHxMat() {
+        assertPresent(hX);
         return *this->hX->pcm;
     }
 
     gf2Mat getHzMat() {
+        assertPresent(hZ);
         return *this->hZ->pcm;
     }
 
@@ -145,7 +153,9 @@ public:
      * Takes matrix hZ over GF(2) and constructs respective code for X errors with Z checks represented by hZ
      * Convention: Rows in first dim, columns in second
      */
-    explicit Code(std::vector<std::vector<bool>>& hz) : hZ(std::make_unique<ParityCheckMatrix>(hz)), n(hZ->pcm->front().size()) {
+    explicit Code(std::vector<std::vector<bool>>& hz) : hZ(std::make_unique<ParityCheckMatrix>(hz)) {
+        assertPresent(hZ);
+        n = hZ->pcm->front().size();
     }
 
     /*
@@ -153,8 +163,10 @@ public:
      * Convention: Rows in first dim, columns in second
      */
     explicit Code(std::vector<std::vector<bool>>& hx, std::vector<std::vector<bool>>& hz) : hX(std::make_unique<ParityCheckMatrix>(hx)),
-                                                                                            hZ(std::make_unique<ParityCheckMatrix>(hz)),
-                                                                                            n(hZ->pcm->front().size()) {
+                                                                                            hZ(std::make_unique<ParityCheckMatrix>(hz)) {
+        assertPresent(hX);
+        assertPresent(hZ);
+        n = hZ->pcm->front().size();
     }
 
     /**
@@ -206,6 +218,7 @@ public:
             return getSyndrome(xerr, zerr);
         }
         // per default X errs only
+        assertPresent(hZ);
         gf2Vec syndr((*hZ->pcm).size(), false);
         Utils::rectMatrixMultiply(*hZ->pcm, err, syndr);
         return syndr;
@@ -220,6 +233,8 @@ public:
         if (xerr.empty() || zerr.empty() || xerr.size() != getN() || zerr.size() != getN()) {
             throw QeccException("Cannot compute syndrome, err empty or wrong size");
         }
+        assertPresent(hX);
+        assertPresent(hZ);
 
         gf2Vec xsyndr((*hZ->pcm).size(), false);
         Utils::rectMatrixMultiply(*hZ->pcm, xerr, xsyndr);
@@ -253,6 +268,8 @@ public:
      * @return
      */
     [[nodiscard]] bool isStabilizer(const gf2Vec& xest, const gf2Vec& zest) const {
+        assertPresent(hX);
+        assertPresent(hZ);
         return Utils::isVectorInRowspace(*hX->pcm, xest) && Utils::isVectorInRowspace(*hZ->pcm, zest);
     }
 
@@ -267,7 +284,9 @@ public:
         if (std::all_of(est.begin(), est.end(), [](int i) { return !static_cast<bool>(i); })) { // trivial case, all 0 vector
             return true;
         }
+        assertPresent(hX);
         if (est.size() > getN()) {
+            assertPresent(hZ);
             std::vector<bool> xEst;
             xEst.reserve(getN());
             std::vector<bool> zEst;
@@ -285,6 +304,7 @@ public:
     }
 
     friend std::ostream& operator<<(std::ostream& os, const Code& c) {
+        assertPresent(c.hZ);
         auto   nrChecks = c.hZ->pcm->size();
         auto   nrData   = c.hZ->pcm->front().size();
         auto   dim      = nrChecks + nrData;
diff --git a/include/Decoder.hpp b/include/Decoder.hpp
index 53e6ae1..1f1d1b5 100644
--- a/include/Decoder.hpp
+++ b/include/Decoder.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "Code.hpp"
+#include "QeccException.hpp"
 #include "Utils.hpp"
 
 #include <cstddef>
@@ -85,6 +86,9 @@ public:
         Decoder::growth = g;
     }
     void setCode(Code& c) {
+        if (c.gethZ() == nullptr) {
+            throw QeccException("Cannot set code, hZ not set");
+        }
         if (c.gethX() == nullptr) {
             this->code = std::make_unique<Code>(*c.gethZ()->pcm);
         } else {
@@ -92,4 +96,18 @@ public:
         }
     }
     virtual void reset() {};
+
+protected:
+    /**
+     * Ensures that the syndrome has one entry for each Z check, optionally followed by one for each X check
+     */
+    void assertDecodable(const gf2Vec& syndrome) const {
+        if (code == nullptr) {
+            throw QeccException("Cannot decode, code not set");
+        }
+        const auto nrZChecks = code->gethZ()->pcm->size();
+        if (syndrome.size() != nrZChecks && (code->gethX() == nullptr || syndrome.size() != nrZChecks + code->gethX()->pcm->size())) {
+            throw QeccException("Cannot decode, size of syndrome does not match the number of checks");
+        }
+    }
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index f83dc28..899a80c 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -22,6 +22,7 @@
  * @param syndrome
  */
 void UFDecoder::decode(const gf2Vec& syndrome) {
+    assertDecodable(syndrome);
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         const auto        growthVariant = this->growth; // the reset in between must not change the configuration
         std::vector<bool> xSyndr;
diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 587b073..be93bf8 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -45,6 +45,7 @@ std::unordered_set<std::size_t> UFHeuristic::computeInitTreeComponents(const gf2
  * @param syndrome
  */
 void UFHeuristic::decode(const gf2Vec& syndrome) {
+    assertDecodable(syndrome);
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         const auto        growthVariant = this->growth; // the reset in between must not change the configuration
         std::vector<bool> xSyndr;
@@ -393,7 +394,9 @@ void UFHeuristic::reset() {
     nodeMap.clear();
     this->result = {};
     this->growth = GrowthVariant::AllComponents;
-    this->getCode()->gethZ()->nbrCache.clear();
+    if (!this->getCode()) {
+        return;
+    }
     if (this->getCode()->gethZ()) {
         this->getCode()->gethZ()->nbrCache.clear();
     }
-- 
2.43.0


From c35957d05bf641ef51a7263496f951eab4c79ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 73/80] fix: set the number of qubits together with the Z
 checks

---
 include/Code.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Code.hpp b/include/Code.hpp
index 4297e0a..5a21617 100644
--- a/include/Code.hpp
+++ b/include/Code.hpp
@@ -148,6 +148,7 @@ public:
 
     void setHz(std::vector<std::vector<bool>>& hz) {
         hZ = std::make_unique<ParityCheckMatrix>(hz);
+        n  = hz.empty() ? 0U : hz.front().size();
     }
     /*
      * Takes matrix hZ over GF(2) and constructs respective code for X errors with Z checks represented by hZ
-- 
2.43.0


From 2cb0e866599a47230125687f057923443f47ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 74/80] fix: name the members of DecodingResultStatus in Python

---
 src/python/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 100352d..eca712f 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -152,8 +152,8 @@ PYBIND11_MODULE(pyqecc, m, py::mod_gil_not_used()) {
             .def("decode", &UFDecoder::decode);
 
     py::enum_<DecodingResultStatus>(m, "DecodingResultStatus")
-            .value("ALL_COMPONENTS", DecodingResultStatus::SUCCESS)
-            .value("INVALID_COMPONENTS", DecodingResultStatus::FAILURE)
+            .value("SUCCESS", DecodingResultStatus::SUCCESS)
+            .value("FAILURE", DecodingResultStatus::FAILURE)
             .export_values()
             .def(py::init([](const std::string& str) -> DecodingResultStatus { return decodingResultStatusFromString(str); }));
 
-- 
2.43.0


From 34b9384d9a29fe52c3ed703e0645e4974d6eb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 75/80] fix: bind the simulations as static methods

---
 src/python/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index eca712f..93f625a 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -172,8 +172,8 @@ PYBIND11_MODULE(pyqecc, m, py::mod_gil_not_used()) {
 
     py::class_<DecodingSimulator>(m, "DecodingSimulator")
             .def(py::init<>())
-            .def("simulate_wer", &DecodingSimulator::simulateWER)
-            .def("simulate_avg_runtime", &DecodingSimulator::simulateAverageRuntime);
+            .def_static("simulate_wer", &DecodingSimulator::simulateWER)
+            .def_static("simulate_avg_runtime", &DecodingSimulator::simulateAverageRuntime);
 
     py::enum_<DecoderType>(m, "DecoderType")
             .value("UF_HEURISTIC", DecoderType::UfHeuristic)
-- 
2.43.0


From ca33bc9160a9263c04324ef08dc9e29d913d7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 76/80] fix: reject arguments of apply_ecc that are no circuits

---
 src/python/bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 93f625a..d10e497 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -39,6 +39,8 @@ py::dict applyEcc(const py::object& circ, const std::string& eccName, const size
         py::object const quantumCircuit = py::module::import("qiskit").attr("QuantumCircuit");
         if (py::isinstance(circ, quantumCircuit)) {
             qc::qiskit::QuantumCircuit::import(*qc, circ);
+        } else {
+            throw std::invalid_argument("A circuit must be given as a QuantumCircuit or as the name of a file.");
         }
     }
 
-- 
2.43.0


From c2d8fdb0d4e91e8b059348be80c546fb66953795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:38 +0000
Subject: [PATCH 77/80] fix: declare the names the extension module has in its
 type stub

---
 src/mqt/qecc/pyqecc.pyi | 46 +++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/mqt/qecc/pyqecc.pyi b/src/mqt/qecc/pyqecc.pyi
index 9092989..c7acac8 100644
--- a/src/mqt/qecc/pyqecc.pyi
+++ b/src/mqt/qecc/pyqecc.pyi
@@ -11,8 +11,8 @@ class Code:
     def __init__(self, arg0: list[list[bool]]) -> None: ...
     @overload
     def __init__(self, arg0: list[list[bool]], arg1: list[list[bool]]) -> None: ...
-    def get_hx(self) -> list[list[bool]]: ...
-    def get_hz(self) -> list[list[bool]]: ...
+    def getHx(self) -> list[list[bool]]: ...
+    def getHz(self) -> list[list[bool]]: ...
     def get_syndrome(self, arg0: list[bool], arg1: list[bool]) -> list[bool]: ...
     def get_x_syndrome(self, arg0: list[bool]) -> list[bool]: ...
     @overload
@@ -21,8 +21,8 @@ class Code:
     def is_stabilizer(self, arg0: list[bool], arg1: list[bool]) -> bool: ...
     def is_x_stabilizer(self, arg0: list[bool]) -> bool: ...
     def json(self) -> dict[str, Any]: ...
-    def set_hx(self, arg0: list[list[bool]]) -> None: ...
-    def set_hz(self, arg0: list[list[bool]]) -> None: ...
+    def setHx(self, arg0: list[list[bool]]) -> None: ...
+    def setHz(self, arg0: list[list[bool]]) -> None: ...
 
     d: int
     k: int
@@ -39,8 +39,8 @@ class Decoder:
 
 class DecoderType:
     __members__: ClassVar[dict[DecoderType, int]] = ...  # read-only
-    original_uf: ClassVar[DecoderType] = ...
-    uf_heuristic: ClassVar[DecoderType] = ...
+    ORIGINAL_UF: ClassVar[DecoderType] = ...
+    UF_HEURISTIC: ClassVar[DecoderType] = ...
 
     @overload
     def __init__(self, value: int) -> None: ...
@@ -70,8 +70,8 @@ class DecodingResult:
 
 class DecodingResultStatus:
     __members__: ClassVar[dict[DecodingResultStatus, int]] = ...  # read-only
-    success: ClassVar[DecodingResultStatus] = ...
-    failure: ClassVar[DecodingResultStatus] = ...
+    SUCCESS: ClassVar[DecodingResultStatus] = ...
+    FAILURE: ClassVar[DecodingResultStatus] = ...
 
     @overload
     def __init__(self, value: int) -> None: ...
@@ -115,36 +115,38 @@ class DecodingRunInformation:
     ) -> None: ...
     def json(self) -> dict[str, Any]: ...
 
-    code_size: int
+    codeSize: int
     error: list[bool]
-    physical_err_r: float
+    physicalErrR: float
     result: DecodingResult
     status: DecodingResultStatus
     syndrome: list[bool]
 
 class DecodingSimulator:
     def __init__(self) -> None: ...
+    @staticmethod
     def simulate_avg_runtime(
-        self, arg0: str, arg1: float, arg2: int, arg3: str, arg4: int, arg5: DecoderType
+        arg0: str, arg1: str, arg2: float, arg3: int, arg4: str, arg5: int, arg6: DecoderType
     ) -> None: ...
+    @staticmethod
     def simulate_wer(
-        self,
         arg0: str,
-        arg1: float,
+        arg1: str,
         arg2: float,
-        arg3: int,
-        arg4: Code,
-        arg5: float,
-        arg6: DecoderType,
+        arg3: float,
+        arg4: int,
+        arg5: Code,
+        arg6: float,
+        arg7: DecoderType,
     ) -> None: ...
 
 class GrowthVariant:
     __members__: ClassVar[dict[GrowthVariant, int]] = ...  # read-only
-    all_components: ClassVar[GrowthVariant] = ...
-    invalid_components: ClassVar[GrowthVariant] = ...
-    single_smallest: ClassVar[GrowthVariant] = ...
-    single_random: ClassVar[GrowthVariant] = ...
-    single_qubit_random: ClassVar[GrowthVariant] = ...
+    ALL_COMPONENTS: ClassVar[GrowthVariant] = ...
+    INVALID_COMPONENTS: ClassVar[GrowthVariant] = ...
+    SINGLE_SMALLEST: ClassVar[GrowthVariant] = ...
+    SINGLE_RANDOM: ClassVar[GrowthVariant] = ...
+    SINGLE_QUBIT_RANDOM: ClassVar[GrowthVariant] = ...
 
     @overload
     def __init__(self, value: int) -> None: ...
-- 
2.43.0


From b6b94d98c34c003cb2176c821d532e71b0773f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:38 +0000
Subject: [PATCH 78/80] fix: reject generators without qubits

---
 src/mqt/qecc/codes/stabilizer_code.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 02b406e..ea02b5a 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -203,7 +203,12 @@ def binary_to_pauli_string(b: npt.NDArray) -> str:
 
 def is_pauli_string(p: str) -> bool:
     """Check if a string is a valid Pauli string."""
-    return len(p) > 0 and all(c in {"I", "X", "Y", "Z"} for c in p[1:]) and p[0] in {"+", "-", "I", "X", "Y", "Z"}
+    # a sign alone acts on no qubit
+    return (
+        p not in {"", "+", "-"}
+        and all(c in {"I", "X", "Y", "Z"} for c in p[1:])
+        and p[0] in {"+", "-", "I", "X", "Y", "Z"}
+    )
 
 
 def get_n_qubits_from_pauli(p: Pauli) -> int:
-- 
2.43.0


From ec4d70e40dec99d34a5993f0a4031de3e31e3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:45 +0000
Subject: [PATCH 79/80] fix: stored stim circuits agree with their QASM
 counterparts

---
 .../hamming/plus_ft_heuristic_heuristic.stim       | 11 +++++------
 .../circuits/hamming/plus_ft_heuristic_opt.stim    | 14 ++++++++------
 .../eval/circuits/hamming/plus_ft_opt_opt.stim     | 13 ++++++-------
 .../circuits/hamming/plus_non_ft_heuristic.stim    |  7 ++-----
 .../circuits/hamming/zero_non_ft_heuristic.stim    |  5 +----
 .../rotated_surface_d3/zero_non_ft_heuristic.stim  |  2 +-
 6 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
index d01a8d8..70e3607 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
@@ -1,10 +1,9 @@
-H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6 15 0 16 5 15 4 15 7 15 8 15 9 15 14 16 9
+H 2 4 5 6 8 9 10 11 12 13 14
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6
 H 15
-CX 16 11
+CX 15 0 15 2 15 4 15 6 15 7 15 9 15 11 15 13
+H 15 16
+CX 16 5 16 9 16 12 16 13 16 14
 H 16
 MR 15
 MR 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
index 510d666..782320f 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
@@ -1,7 +1,9 @@
-H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6 15 4 16 1 15 9 16 3 15 14 16 5
+H 2 4 5 6 8 9 10 11 12 13 14
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6
+H 15
+CX 15 5 15 10 15 12
 H 15 16
-MR 15 16
+CX 16 1 16 3 16 8 16 14
+H 16
+MR 15
+MR 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
index 8f0ae7a..05f8679 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
@@ -1,11 +1,10 @@
-H 0 1 2 4 5 6 7 8 9 12 13 15 16
-CX 4 3 2 11 9 14
-CX 1 2 3 10 11 9 14 4
-CX 5 4 12 3 13 9 7 14
-CX 2 3 0 12 14 10 4 2 6 10 12 11 15 0 8 4 15 13 16 0 3 8 15 14 9 3 8 11
+H 2 3 4 5 6 7 8 9 10 13 14
+CX 10 0 0 1 7 1 3 12 6 10 8 1 4 11 11 3 13 11 9 8 14 0 10 12 3 1 5 6 0 11 6 0 7 0 1 10 11 1 9 4 2 4 4 5
+H 15
+CX 15 0 15 9 15 10
 H 15
-CX 10 11 16 9
 MR 15
-CX 16 10
+H 16
+CX 16 4 16 8 16 11
 H 16
 MR 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim
index 143753f..4482ea2 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim
@@ -1,5 +1,2 @@
-H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6
+H 2 4 5 6 8 9 10 11 12 13 14
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
index 2ed65ad..cf8b7ff 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
@@ -1,5 +1,2 @@
 H 0 1 3 7
-CX 1 2 3 5 7 11 0 2 3 4 5 6 7 9 11 13 0 4 1 5 2 6 7 8 9 10 11 12 13 14 0 8 1 9 2 10 3 11 4 12 5 13 6 14 0 15 5 16 2 15 4 15 6 15 7 15 9 15 11 15 9 16 13 15 12 16 13 16
-MR 15
-CX 14 16
-MR 16
+CX 7 11 3 5 1 2 11 13 7 9 5 6 3 4 0 2 13 14 11 12 9 10 7 8 1 5 0 4 2 6 3 11 1 9 0 8 5 13 4 12 2 10 6 14
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
index 21c90bf..da76313 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
@@ -1,2 +1,2 @@
 H 0 2 5 6
-CX 0 4 5 8 0 3 5 7 0 1 2 5 6 3 7 4 0 9 2
+CX 5 8 0 4 5 7 0 3 7 4 6 3 2 5 0 1
-- 
2.43.0


From 3b742840cad19b052cfefea2ba9c055dd2ce8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:08 +0000
Subject: [PATCH 80/80] fix: erasure decoder of the heuristic skips clusters
 that were merged into others

---
 src/UFHeuristic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index be93bf8..1955760 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -268,6 +268,9 @@ std::vector<std::size_t> UFHeuristic::erasureDecoder(std::unordered_set<std::siz
     for (const auto& currCompRootId : erasure) {
         std::vector<std::size_t> compErasure;
         const auto&              currCompRoot = getNodeFromIdx(currCompRootId);
+        if (TreeNode::Find(currCompRoot) != currCompRoot) {
+            continue; // merged into another component since it became valid
+        }
         std::queue<std::size_t>  queue;
 
         // start traversal at component root
-- 
2.43.0

