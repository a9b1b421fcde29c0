From 4ca6d7801df01f44b1ecfa7335400745963f0fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:18 +0000
Subject: [PATCH 01/25] fix: read the binary factor with the sender in its own
 position when computing messages

The positions of the sender and of the receiver were swapped, so that the
factor was evaluated transposed: wrong beliefs for every asymmetric binary
factor, and out of range accesses when the 2 variables have different sizes.
---
 src/src/structure/SpecialFactors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d1f11a2..d470a10 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -144,8 +144,8 @@ void fill_message(const UnaryFactor &merged_unaries,
                   const Immutable &binary_factor, Function &recipient) {
   std::size_t message_pos;
   std::size_t sender_pos;
-  get_positions(binary_factor, merged_unaries.getVariable(), message_pos,
-                sender_pos);
+  get_positions(binary_factor, merged_unaries.getVariable(), sender_pos,
+                message_pos);
   std::size_t message_size =
       binary_factor.function().vars().getVariables()[message_pos]->size();
   for (std::size_t r = 0; r < message_size; ++r) {
-- 
2.43.0


From 305ab17ce58485bd5a5b90771d6a53b082acbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:18 +0000
Subject: [PATCH 02/25] fix: removing an evidence keeps disabled the
 connections to nodes still observed

The connections of the removed evidence were all activated, also those toward
other evidences, which are not part of any hidden cluster: the effect of the
adjacent evidence was lost or the propagation accessed null messages. The
messages of a factor inserted between 2 evidences were also left null.
---
 src/src/structure/EvidenceManager.cpp    | 19 ++++++++++++++-----
 src/src/structure/bases/FactorsAware.cpp |  8 ++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index c7e7a33..3224649 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -74,12 +74,21 @@ void EvidenceRemover::removeEvidence_(const categoric::VariablePtr &variable) {
     throw Error::make(variable->name(), " is not an evidence");
   }
   resetBelief();
+  // keep alive the variable, as the passed one may be owned by the evidences
+  const auto var = evidence_it->first;
   state.evidences.erase(evidence_it);
-  auto &node = *state.nodes[variable].get();
-  while (!node.disabled_connections.empty()) {
-    auto it = node.disabled_connections.begin();
-    it->first->merged_unaries.reset();
-    Node::activate(node, *it->first, it->second.factor);
+  auto &node = *state.nodes[var].get();
+  // connections to nodes that are still observed should remain disabled
+  std::vector<std::pair<Node *, factor::ImmutablePtr>> to_activate;
+  for (const auto &[connected_node, connection] : node.disabled_connections) {
+    if (state.evidences.find(connected_node->variable) ==
+        state.evidences.end()) {
+      to_activate.emplace_back(connected_node, connection.factor);
+    }
+  }
+  for (const auto &[connected_node, factor] : to_activate) {
+    connected_node->merged_unaries.reset();
+    Node::activate(node, *connected_node, factor);
   }
   node.merged_unaries.reset();
 }
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 05812f7..7df8c1d 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -126,9 +126,13 @@ void FactorsAware::addBinaryDistribution(
               hybrid_insertion(nodeB, nodeA, evidenceA_location->second,
                                binary_factor);
             },
-            [&](const Evidences::iterator &) {
+            [&](const Evidences::iterator &evidenceB_location) {
               // both are evidences
-              Node::disable(*nodeA, *nodeB, binary_factor);
+              auto connections = Node::disable(*nodeA, *nodeB, binary_factor);
+              connections.first->message = std::make_unique<factor::Evidence>(
+                  *binary_factor, nodeB->variable, evidenceB_location->second);
+              connections.second->message = std::make_unique<factor::Evidence>(
+                  *binary_factor, nodeA->variable, evidenceA_location->second);
             }}
             .visit(nodeB_location.location);
       }}
-- 
2.43.0


From bdac415ca3e25379621a5a88ca6db36c79dfdee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:18 +0000
Subject: [PATCH 03/25] fix: check all the variables before removing a set of
 evidences

Throwing after some of the evidences were removed left them out of both the
hidden clusters and the evidences.
---
 src/src/structure/EvidenceManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/src/structure/EvidenceManager.cpp b/src/src/structure/EvidenceManager.cpp
index 3224649..62cf8fe 100644
--- a/src/src/structure/EvidenceManager.cpp
+++ b/src/src/structure/EvidenceManager.cpp
@@ -107,6 +107,11 @@ void EvidenceRemover::removeEvidences(
   if (variables.empty()) {
     return;
   }
+  for (const auto &variable : variables) {
+    if (state().evidences.find(variable) == state().evidences.end()) {
+      throw Error::make(variable->name(), " is not an evidence");
+    }
+  }
   for (const auto &variable : variables) {
     removeEvidence_(variable);
   }
-- 
2.43.0


From 46bd6bc4d2b103fe76ee3b2d014f6363c20e7f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:18 +0000
Subject: [PATCH 04/25] fix: recompute what depends on the images of the
 factors when weights change

The merged unary factors and the marginalized evidences of the nodes were
still the ones obtained with the previous weights.
---
 .../structure/bases/FactorsAware.h                |  7 +++++++
 src/src/structure/bases/FactorsAware.cpp          | 15 +++++++++++++++
 src/src/trainable/FactorsTunableManager.cpp       |  3 ++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
index f796d7b..09bdc9d 100644
--- a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
@@ -21,6 +21,13 @@ public:
 protected:
   void addDistribution(const EFG::factor::ImmutablePtr &distribution);
 
+  /**
+   * @brief to be called after changing the images of some of the factors:
+   * the merged unaries and the marginalized evidences are recomputed, since
+   * they are function of such images.
+   */
+  void resetFactorsImages();
+
 private:
   NodeLocation findOrMakeNode(const categoric::VariablePtr &var);
 
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index 7df8c1d..f093547 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -37,6 +37,21 @@ void FactorsAware::addDistribution(
   factorsAll.emplace(distribution);
 }
 
+void FactorsAware::resetFactorsImages() {
+  auto &state = stateMutable();
+  for (auto &[var, node] : state.nodes) {
+    node->merged_unaries.reset();
+    for (auto &[connected_node, connection] : node->disabled_connections) {
+      if (auto it = state.evidences.find(connected_node->variable);
+          it != state.evidences.end()) {
+        connection.message = std::make_unique<factor::Evidence>(
+            *connection.factor, connected_node->variable, it->second);
+      }
+    }
+  }
+  resetBelief();
+}
+
 namespace {
 void check_is_same_variable(const categoric::VariablePtr &a,
                             const categoric::VariablePtr &b) {
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index 2b86e32..f7e8ce3 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -58,7 +58,7 @@ void FactorsTunableGetter::setWeights(const std::vector<float> &weights) {
   for (std::size_t k = 0; k < tuners.size(); ++k) {
     tuners[k]->setWeight(weights[k]);
   }
-  resetBelief();
+  resetFactorsImages();
 }
 
 std::vector<float> FactorsTunableGetter::getWeightsGradient(
@@ -140,6 +140,7 @@ void FactorsTunableInserter::addTunableFactor(
         tuner_sharing.addElement(std::move(tuner));
         tuner_sharing.setWeight(tuner_sharing.getWeight());
       });
+  resetFactorsImages();
 }
 
 void FactorsTunableInserter::copyTunableFactor(
-- 
2.43.0


From 557a4eb379611a179c79173805c2795c0c5c86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:03 +0000
Subject: [PATCH 05/25] fix: dangling accesses when computing joint marginals

---
 src/src/structure/QueryManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/structure/QueryManager.cpp b/src/src/structure/QueryManager.cpp
index fd49c1b..eb2e9bb 100644
--- a/src/src/structure/QueryManager.cpp
+++ b/src/src/structure/QueryManager.cpp
@@ -11,6 +11,8 @@
 #include <EasyFactorGraph/structure/SpecialFactors.h>
 #include <EasyFactorGraph/structure/bases/StateAware.h>
 
+#include <list>
+
 namespace EFG::strct {
 namespace {
 factor::MergedUnaries gather_incoming_messages(Node &subject) {
@@ -114,7 +116,8 @@ QueryManager::getJointMarginalDistribution(const categoric::Group &subgroup,
   }
 
   std::unordered_set<const factor::Immutable *> contributions;
-  std::vector<factor::Indicator> indicators;
+  // list is used since contributions stores addresses of the elements
+  std::list<factor::Indicator> indicators;
   for (auto &[node, location] : locations) {
     VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
         [&node = node, &subgroup_nodes,
-- 
2.43.0


From 662aaed30ba14a7727989314fd4bf8354c229486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:03 +0000
Subject: [PATCH 06/25] fix: initialize the tasks of a worker before starting
 its thread

---
 src/header/EasyFactorGraph/structure/bases/PoolAware.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/PoolAware.h b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
index 4577a51..de546c8 100644
--- a/src/header/EasyFactorGraph/structure/bases/PoolAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/PoolAware.h
@@ -40,9 +40,10 @@ private:
   struct Worker {
     Worker(std::size_t th_id, Context &context);
 
-    std::thread loop;
-
     std::atomic<const Tasks *> to_process = nullptr;
+
+    // the thread accesses the above member: it should be the last one built
+    std::thread loop;
   };
   using WorkerPtr = std::unique_ptr<Worker>;
   std::vector<WorkerPtr> workers;
-- 
2.43.0


From f9e15f745c360a8d02b2e026f7a89930a40992d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:03 +0000
Subject: [PATCH 07/25] fix: asking for 0 threads should not destroy the pool
 of the model

---
 src/src/structure/bases/PoolAware.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/structure/bases/PoolAware.cpp b/src/src/structure/bases/PoolAware.cpp
index 151877e..2c8d0c1 100644
--- a/src/src/structure/bases/PoolAware.cpp
+++ b/src/src/structure/bases/PoolAware.cpp
@@ -74,6 +74,10 @@ PoolAware::~PoolAware() = default;
 void PoolAware::resetPool() { pool.emplace(1); }
 
 void PoolAware::setPoolSize(const std::size_t new_size) {
+  if (0 == new_size) {
+    // emplace would destroy the current pool before throwing
+    throw Error{"Invalid Pool size"};
+  }
   if (new_size == pool->size()) {
     return;
   }
-- 
2.43.0


From e937b7663a4af44bdd149ce6c0472ba51efa5cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:03 +0000
Subject: [PATCH 08/25] fix: import the actual combinations of a training set
 file

Each row was imported as a combination of zeros, ignoring the last column. The
empty line following the last newline of a file was also parsed as a row,
accessing an empty container.
---
 src/src/io/TrainSetImport.cpp |  4 ++--
 src/src/io/Utils.cpp          | 10 ++++++++++
 src/src/io/Utils.h            | 10 +++++++---
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/src/io/TrainSetImport.cpp b/src/src/io/TrainSetImport.cpp
index 529510a..6eb59bd 100644
--- a/src/src/io/TrainSetImport.cpp
+++ b/src/src/io/TrainSetImport.cpp
@@ -17,13 +17,13 @@ train::TrainSet import_train_set(const std::string &file_name) {
     std::size_t line_numb = 0;
     std::size_t expected_size = 0;
     for_each_line(stream, [&](const std::string &line) {
-      auto &&[combination, img] = parse_combination_image(line);
+      auto combination = parse_combination(line);
       if ((expected_size != 0) && (combination.size() != expected_size)) {
         throw Error::make("Invalid combination size at line ",
                           std::to_string(line_numb));
       }
       expected_size = combination.size();
-      combinations.emplace_back(std::move(expected_size));
+      combinations.emplace_back(std::move(combination));
       ++line_numb;
     });
   });
diff --git a/src/src/io/Utils.cpp b/src/src/io/Utils.cpp
index 7757e80..5aae717 100644
--- a/src/src/io/Utils.cpp
+++ b/src/src/io/Utils.cpp
@@ -10,6 +10,16 @@
 #include <sstream>
 
 namespace EFG::io {
+std::vector<std::size_t> parse_combination(const std::string &line) {
+  std::stringstream buff{line};
+  std::vector<std::size_t> comb;
+  std::string token;
+  while (buff >> token) {
+    comb.push_back(static_cast<std::size_t>(std::atoi(token.c_str())));
+  }
+  return comb;
+}
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line) {
   std::stringstream buff{line};
diff --git a/src/src/io/Utils.h b/src/src/io/Utils.h
index 1fd9bce..264e43d 100644
--- a/src/src/io/Utils.h
+++ b/src/src/io/Utils.h
@@ -42,13 +42,17 @@ void useOutStrem(const std::filesystem::path &file_name, Pred &&pred) {
 template <typename Predicate>
 void for_each_line(std::istream &stream, const Predicate &pred) {
   std::string line;
-  while (!stream.eof()) {
-    line.clear();
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
+    if (line.find_first_not_of(" \t\r") == std::string::npos) {
+      // empty line, e.g. the one after the last newline
+      continue;
+    }
     pred(line);
   }
 }
 
+std::vector<std::size_t> parse_combination(const std::string &line);
+
 std::pair<std::vector<std::size_t>, float>
 parse_combination_image(const std::string &line);
 
-- 
2.43.0


From 1d96bfab91e7bd51038330c42195198f57409d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:29 +0000
Subject: [PATCH 09/25] fix: check a factor before inserting it, a rejected one
 should leave no traces in the model

---
 .../structure/bases/FactorsAware.h            |  6 ++
 src/src/structure/bases/FactorsAware.cpp      | 59 +++++++++++--------
 2 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
index 09bdc9d..1126604 100644
--- a/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
+++ b/src/header/EasyFactorGraph/structure/bases/FactorsAware.h
@@ -29,6 +29,12 @@ protected:
   void resetFactorsImages();
 
 private:
+  /**
+   * @throw if a factor involving the passed variables can't be part of the
+   * model
+   */
+  void checkCanBeInserted(const categoric::VariablesSoup &vars) const;
+
   NodeLocation findOrMakeNode(const categoric::VariablePtr &var);
 
   void addUnaryDistribution(const EFG::factor::ImmutablePtr &unary_factor);
diff --git a/src/src/structure/bases/FactorsAware.cpp b/src/src/structure/bases/FactorsAware.cpp
index f093547..8cac282 100644
--- a/src/src/structure/bases/FactorsAware.cpp
+++ b/src/src/structure/bases/FactorsAware.cpp
@@ -20,18 +20,14 @@ void FactorsAware::addDistribution(
   if (factorsAll.find(distribution) != factorsAll.end()) {
     throw Error{"Already inserted factor"};
   }
-  resetBelief();
+  // check everything before changing the model
+  checkCanBeInserted(distribution->function().vars().getVariables());
 
-  switch (distribution->function().vars().getVariables().size()) {
-  case 1:
+  resetBelief();
+  if (1 == distribution->function().vars().getVariables().size()) {
     addUnaryDistribution(distribution);
-    break;
-  case 2:
+  } else {
     addBinaryDistribution(distribution);
-    break;
-  default:
-    throw Error{"Factor with invalid number of variables"};
-    break;
   }
 
   factorsAll.emplace(distribution);
@@ -52,20 +48,41 @@ void FactorsAware::resetFactorsImages() {
   resetBelief();
 }
 
-namespace {
-void check_is_same_variable(const categoric::VariablePtr &a,
-                            const categoric::VariablePtr &b) {
-  if (a.get() != b.get()) {
-    throw Error::make("Trying to insert variable named: ", a->name(),
-                      " multiple times with different VariablePtr");
+void FactorsAware::checkCanBeInserted(
+    const categoric::VariablesSoup &vars) const {
+  if ((1 != vars.size()) && (2 != vars.size())) {
+    throw Error{"Factor with invalid number of variables"};
+  }
+  for (const auto &var : vars) {
+    for (const auto &present : getAllVariables()) {
+      if ((present->name() == var->name()) && (present.get() != var.get())) {
+        throw Error::make("Trying to insert variable named: ", var->name(),
+                          " multiple times with different VariablePtr");
+      }
+    }
+  }
+  if (1 == vars.size()) {
+    return;
+  }
+  const auto locationA = locate(vars.front());
+  const auto locationB = locate(vars.back());
+  if (!locationA.has_value() || !locationB.has_value()) {
+    return;
+  }
+  auto *nodeA = locationA->node;
+  auto *nodeB = locationB->node;
+  if ((nodeA->active_connections.find(nodeB) !=
+       nodeA->active_connections.end()) ||
+      (nodeA->disabled_connections.find(nodeB) !=
+       nodeA->disabled_connections.end())) {
+    throw Error::make(nodeA->variable->name(), " and ", nodeB->variable->name(),
+                      " are already connected");
   }
 }
-} // namespace
 
 StateAware::NodeLocation
 FactorsAware::findOrMakeNode(const categoric::VariablePtr &var) {
   if (auto info = locate(var); info.has_value()) {
-    check_is_same_variable(var, info.value().node->variable);
     return *info;
   }
   // create this node
@@ -108,14 +125,6 @@ void FactorsAware::addBinaryDistribution(
   const auto nodeB_location = findOrMakeNode(vars.back());
   auto *nodeB = nodeB_location.node;
 
-  if ((nodeA->active_connections.find(nodeB) !=
-       nodeA->active_connections.end()) ||
-      (nodeA->disabled_connections.find(nodeB) !=
-       nodeA->disabled_connections.end())) {
-    throw Error::make(nodeA->variable->name(), " and ", nodeB->variable->name(),
-                      " are already connected");
-  }
-
   VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
       [&](const HiddenClusters::iterator &hiddenA_location) {
         VisitorConst<HiddenClusters::iterator, Evidences::iterator>{
-- 
2.43.0


From c5d2e72dc971d5d9dee3380bd65c4a8048a90512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:39 +0000
Subject: [PATCH 10/25] fix: share the weight with the proper tuner, and refuse
 unknown sharing groups before inserting

---
 .../trainable/FactorsTunableManager.h         |  8 +++
 src/src/trainable/FactorsTunableManager.cpp   | 50 ++++++++++---------
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
index 7b23c52..c7cf824 100644
--- a/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
+++ b/src/header/EasyFactorGraph/trainable/FactorsTunableManager.h
@@ -128,6 +128,14 @@ protected:
 
 private:
   TunerPtr makeTuner(const FactorExponentialPtr &factor);
+
+  /**
+   * @param the factor to insert
+   * @param the tuner that should share the weight with the factor to insert,
+   * or tuners.end() when the weight should not be shared
+   */
+  void insertTunableFactor(const FactorExponentialPtr &factor,
+                           const Tuners::iterator &other_it);
 };
 
 /**
diff --git a/src/src/trainable/FactorsTunableManager.cpp b/src/src/trainable/FactorsTunableManager.cpp
index f7e8ce3..6267d56 100644
--- a/src/src/trainable/FactorsTunableManager.cpp
+++ b/src/src/trainable/FactorsTunableManager.cpp
@@ -119,14 +119,22 @@ TunerPtr FactorsTunableInserter::makeTuner(const FactorExponentialPtr &factor) {
 void FactorsTunableInserter::addTunableFactor(
     const FactorExponentialPtr &factor,
     const std::optional<categoric::VariablesSet> &group_sharing_weight) {
+  // search first, the model should not change when the group is unknown
+  auto other_it = (std::nullopt == group_sharing_weight)
+                      ? tuners.end()
+                      : findTuner(*group_sharing_weight);
+  insertTunableFactor(factor, other_it);
+}
+
+void FactorsTunableInserter::insertTunableFactor(
+    const FactorExponentialPtr &factor, const Tuners::iterator &other_it) {
   addDistribution(factor);
   auto tuner = makeTuner(factor);
   tunable_factors.emplace(factor);
-  if (std::nullopt == group_sharing_weight) {
+  if (tuners.end() == other_it) {
     tuners.emplace_back(std::move(tuner));
     return;
   }
-  auto other_it = findTuner(*group_sharing_weight);
   visitTuner(
       other_it->get(),
       [&tuner, &other_it](BaseTuner &) {
@@ -152,33 +160,27 @@ void FactorsTunableInserter::copyTunableFactor(
 
 void FactorsTunableInserter::absorbTunableClusters(
     const FactorsTunableGetter &source, bool copy) {
-  auto insertFactor =
-      [copy = copy, this](
-          const FactorExponentialPtr &factor,
-          const std::optional<categoric::VariablesSet> &group_sharing_weight) {
-        if (copy) {
-          copyTunableFactor(*factor, group_sharing_weight);
-        } else {
-          addTunableFactor(factor, group_sharing_weight);
-        }
-      };
+  auto insertFactor = [copy = copy, this](const FactorExponentialPtr &factor,
+                                          const Tuners::iterator &other_it) {
+    insertTunableFactor(
+        copy ? std::make_shared<factor::FactorExponential>(*factor) : factor,
+        other_it);
+  };
 
   for (const auto &cluster : source.getTunableClusters()) {
     try {
       VisitorConst<FactorExponentialPtr, TunableClusters>{
-          [&insertFactor](const FactorExponentialPtr &base) {
-            insertFactor(base, std::nullopt);
+          [&](const FactorExponentialPtr &base) {
+            insertFactor(base, tuners.end());
           },
-          [&insertFactor](const TunableClusters &composite) {
-            auto front_factor = composite.front();
-            const auto &vars =
-                front_factor->function().vars().getVariablesSet();
-            insertFactor(front_factor, std::nullopt);
-            std::for_each(
-                composite.begin() + 1, composite.end(),
-                [&insertFactor, &vars](const FactorExponentialPtr &tuner) {
-                  insertFactor(tuner, vars);
-                });
+          [&](const TunableClusters &composite) {
+            insertFactor(composite.front(), tuners.end());
+            // share the weight with the tuner just inserted: the involved
+            // variables may be also part of other clusters
+            std::for_each(composite.begin() + 1, composite.end(),
+                          [&](const FactorExponentialPtr &tuner) {
+                            insertFactor(tuner, std::prev(tuners.end()));
+                          });
           }}
           .visit(cluster);
     } catch (...) {
-- 
2.43.0


From 03f2196fb84c427f2b2c300c09007bbede6dd9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:16 +0000
Subject: [PATCH 11/25] fix: evidences of a conditional model follow the order
 of its observed variables

---
 .../model/ConditionalRandomField.h            |  2 --
 src/src/model/ConditionalRandomField.cpp      | 35 +++++++++++++------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/header/EasyFactorGraph/model/ConditionalRandomField.h b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
index acca867..9f8c185 100644
--- a/src/header/EasyFactorGraph/model/ConditionalRandomField.h
+++ b/src/header/EasyFactorGraph/model/ConditionalRandomField.h
@@ -83,7 +83,5 @@ private:
 
   void replaceIfNeeded(train::TunerPtr &container,
                        const train::BaseTuner &subject);
-
-  const std::vector<std::size_t> evidence_vars_positions;
 };
 } // namespace EFG::model
diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 34e8154..48dfb5b 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -30,18 +30,15 @@ find_positions(const categoric::VariablesSoup &all_vars,
 }
 } // namespace
 
-ConditionalRandomField::ConditionalRandomField(const ConditionalRandomField &o)
-    : evidence_vars_positions(
-          find_positions(o.getAllVariables(), o.getObservedVariables())) {
+ConditionalRandomField::ConditionalRandomField(
+    const ConditionalRandomField &o) {
   absorb(SourceStructure{static_cast<const strct::FactorsConstGetter *>(&o),
                          static_cast<const train::FactorsTunableGetter *>(&o)},
          false);
 }
 
 ConditionalRandomField::ConditionalRandomField(const RandomField &source,
-                                               bool copy)
-    : evidence_vars_positions(find_positions(source.getAllVariables(),
-                                             source.getObservedVariables())) {
+                                               bool copy) {
   absorb(
       SourceStructure{
           static_cast<const strct::FactorsConstGetter *>(&source),
@@ -125,8 +122,18 @@ void ConditionalRandomField::setEvidences(
     throw Error::make("Expected ", std::to_string(state.evidences.size()),
                       " evidences, but got instead ", values.size());
   }
+  const auto observed = getObservedVariables();
+  // check all the values before changing the evidences
+  auto value_it = values.begin();
+  for (const auto &var : observed) {
+    if (var->size() <= *value_it) {
+      throw Error::make(std::to_string(*value_it),
+                        " is an invalid evidence for variable ", var->name());
+    }
+    ++value_it;
+  }
   std::size_t k = 0;
-  for (const auto &[var, val] : state.evidences) {
+  for (const auto &var : observed) {
     setEvidence(var, values[k]);
     ++k;
   }
@@ -164,13 +171,19 @@ std::vector<float> ConditionalRandomField::getWeightsGradient_(
         receiver += coeff * tuner->getGradientBeta();
       });
     }
+    // positions of the evidences in the combinations, which are ordered as the
+    // variables of this model
+    const auto observed = getObservedVariables();
+    const auto evidence_vars_positions =
+        find_positions(getAllVariables(), observed);
     train_set_combinations.forEachSample(
-        [this, &tasks](const auto &combination) {
+        [this, &tasks, &observed,
+         &evidence_vars_positions](const auto &combination) {
           {
             std::size_t var_pos = 0;
-            for (auto &[var, val] : this->state().evidences) {
-              this->setEvidence(
-                  var, combination[this->evidence_vars_positions[var_pos]]);
+            for (const auto &var : observed) {
+              this->setEvidence(var,
+                                combination[evidence_vars_positions[var_pos]]);
               ++var_pos;
             }
           }
-- 
2.43.0


From 38c90bde199eb00496a2275b35e152ff18278eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:16 +0000
Subject: [PATCH 12/25] fix: division by 0 when building a train set with a
 small range percentage

---
 src/src/model/ConditionalRandomField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/model/ConditionalRandomField.cpp b/src/src/model/ConditionalRandomField.cpp
index 48dfb5b..eb6f9d7 100644
--- a/src/src/model/ConditionalRandomField.cpp
+++ b/src/src/model/ConditionalRandomField.cpp
@@ -223,8 +223,9 @@ std::vector<std::vector<std::size_t>> ConditionalRandomField::makeTrainSet(
     categoric::for_each_combination(evidences_range, emplace_samples);
   } else {
     const std::size_t result_max_size = evidences_group.size();
-    const std::size_t result_size_approx =
-        static_cast<std::size_t>(floorf(result_max_size * range_percentage));
+    const std::size_t result_size_approx = std::max<std::size_t>(
+        1,
+        static_cast<std::size_t>(floorf(result_max_size * range_percentage)));
     const std::size_t delta = result_max_size / result_size_approx;
     std::size_t k = 0;
     while (k < result_max_size) {
-- 
2.43.0


From d4d864cece2a0498f4d969d60c7b4650efcb8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:16 +0000
Subject: [PATCH 13/25] fix: export to json images and weights with all their
 digits

---
 src/src/io/json/Exporter.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/src/io/json/Exporter.cpp b/src/src/io/json/Exporter.cpp
index 30e1273..3adf5b1 100644
--- a/src/src/io/json/Exporter.cpp
+++ b/src/src/io/json/Exporter.cpp
@@ -11,6 +11,10 @@
 
 #include "../Utils.h"
 
+#include <iomanip>
+#include <limits>
+#include <sstream>
+
 namespace EFG::io::json {
 void Exporter::exportToFile(const nlohmann::json &source,
                             const std::filesystem::path &out) {
@@ -32,6 +36,14 @@ void printGroup(const categoric::Group &group, nlohmann::json &recipient) {
   }
 }
 
+// enough digits to get back the same value when importing
+std::string to_string_exact(float value) {
+  std::stringstream stream;
+  stream << std::setprecision(std::numeric_limits<float>::max_digits10)
+         << value;
+  return stream.str();
+}
+
 nlohmann::json &printPotential(const factor::Immutable &distr,
                                nlohmann::json &recipient) {
   auto &potential = recipient.emplace_back();
@@ -40,7 +52,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
   distr.function().forEachNonNullCombination<false>(
       [&](const auto &comb, float img) {
         auto &Distr_val_added = Distr_val.emplace_back();
-        Distr_val_added["D"] = std::to_string(img);
+        Distr_val_added["D"] = to_string_exact(img);
         auto &values = Distr_val_added["v"];
         for (const auto &v : comb) {
           values.emplace_back() = std::to_string(v);
@@ -52,7 +64,7 @@ nlohmann::json &printPotential(const factor::Immutable &distr,
 nlohmann::json &printExpPotential(const factor::FactorExponential &distr,
                                   nlohmann::json &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag["weight"] = std::to_string(distr.getWeight());
+  pot_tag["weight"] = to_string_exact(distr.getWeight());
   return pot_tag;
 }
 } // namespace
-- 
2.43.0


From 9e93998e3b52e333833462f81daf160ab23634e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:16 +0000
Subject: [PATCH 14/25] fix: names with escaped characters when importing from
 json

---
 src/src/io/json/Importer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index e78b250..d8afd46 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -37,8 +37,7 @@ const nlohmann::json &access(const nlohmann::json &subject,
 
 std::string to_string(const nlohmann::json &subject) {
   if (subject.is_string()) {
-    auto raw_dump = subject.dump();
-    return std::string{raw_dump, 1, raw_dump.size() - 2};
+    return subject.get<std::string>();
   }
   throw Error{"Expected a string"};
 }
-- 
2.43.0


From f7350f6c7f2603026fac31f24bd690989c7db85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:16 +0000
Subject: [PATCH 15/25] fix: reject a json with missing tags

---
 src/src/io/json/Importer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index d8afd46..f4957cf 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -91,7 +91,7 @@ importFactor(const nlohmann::json &subject,
 
   for (const auto &comb : access(subject, "Distr_val")) {
     std::vector<std::size_t> combination;
-    for (const auto &v : comb["v"]) {
+    for (const auto &v : access(comb, "v")) {
       combination.push_back(std::atoi(to_string(v).c_str()));
     }
     const float val =
@@ -134,7 +134,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   // import variables
   categoric::VariablesSet variables;
   std::unordered_map<std::string, std::size_t> evidences;
-  for (const auto &var : source["Variables"]) {
+  for (const auto &var : access(source, "Variables")) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
     auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
@@ -151,7 +151,7 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
   }
   // import potentials
   ImportHelper importer(recipient);
-  for (const auto &factor : source["Potentials"]) {
+  for (const auto &factor : access(source, "Potentials")) {
     importPotential(factor, variables, importer);
   }
   importer.importCumulatedTunable();
-- 
2.43.0


From 25f54eb08e4841dabb6a94d20bd7c61ea603ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:38 +0000
Subject: [PATCH 16/25] fix: reject a json specifying twice a variable with
 different sizes

---
 src/src/io/json/Importer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/io/json/Importer.cpp b/src/src/io/json/Importer.cpp
index f4957cf..389f3af 100644
--- a/src/src/io/json/Importer.cpp
+++ b/src/src/io/json/Importer.cpp
@@ -138,7 +138,10 @@ Importer::convert(Inserters recipient, const nlohmann::json &source) {
     const auto name = to_string(access(var, "name"));
     const auto size = to_string(access(var, "Size"));
     auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
-    if (variables.find(new_var) != variables.end()) {
+    if (std::find_if(variables.begin(), variables.end(),
+                     [&name](const categoric::VariablePtr &present) {
+                       return present->name() == name;
+                     }) != variables.end()) {
       throw Error::make(name, " is a multiple times specified variable ");
     }
     variables.emplace(new_var);
-- 
2.43.0


From 343086ff405297b821e0c90cc72c74a9f8a3c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:38 +0000
Subject: [PATCH 17/25] fix: never draw values with a null probability

---
 src/src/structure/GibbsSampler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 503bac7..49773a7 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -21,13 +21,19 @@ std::size_t UniformSampler::sampleFromDiscrete(
     const std::vector<float> &distribution) const {
   float s = this->sample();
   float cumul = 0.f;
+  // values having a null probability can't be returned
+  std::size_t result = distribution.size() - 1;
   for (std::size_t k = 0; k < distribution.size(); ++k) {
+    if (distribution[k] <= 0) {
+      continue;
+    }
+    result = k;
     cumul += distribution[k];
     if (s <= cumul) {
-      return k;
+      break;
     }
   }
-  return distribution.size() - 1;
+  return result;
 }
 
 void UniformSampler::resetSeed(std::size_t newSeed) {
-- 
2.43.0


From 88c6b6981536b1b03dddd4c8135149e09bc50f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:38 +0000
Subject: [PATCH 18/25] fix: a group should not contain different variables
 with the same name

---
 src/src/categoric/Group.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/src/categoric/Group.cpp b/src/src/categoric/Group.cpp
index 59794c6..38a238d 100644
--- a/src/src/categoric/Group.cpp
+++ b/src/src/categoric/Group.cpp
@@ -8,6 +8,10 @@
 #include <EasyFactorGraph/Error.h>
 #include <EasyFactorGraph/categoric/Group.h>
 
+#include <algorithm>
+#include <string>
+#include <unordered_set>
+
 namespace EFG::categoric {
 VariablesSet to_vars_set(const VariablesSoup &soup) {
   VariablesSet result;
@@ -17,12 +21,25 @@ VariablesSet to_vars_set(const VariablesSoup &soup) {
   return result;
 }
 
+namespace {
+// variables are labelled by their names, no matter the sizes
+bool has_repeated_names(const VariablesSoup &soup) {
+  std::unordered_set<std::string> names;
+  for (const auto &var : soup) {
+    if (!names.emplace(var->name()).second) {
+      return true;
+    }
+  }
+  return false;
+}
+} // namespace
+
 Group::Group(const VariablesSoup &group)
     : group(group), group_sorted(to_vars_set(group)) {
   if (group.empty()) {
     throw Error{"Variables group can't be empty"};
   }
-  if (group.size() != group_sorted.size()) {
+  if (has_repeated_names(group)) {
     throw Error{"Variables group with multiple variables with same name"};
   }
 }
@@ -33,8 +50,10 @@ Group::Group(const VariablePtr &var) {
 }
 
 void Group::add(const VariablePtr &var) {
-  auto it = group_sorted.find(var);
-  if (it == group_sorted.end()) {
+  auto it = std::find_if(
+      group.begin(), group.end(),
+      [&var](const VariablePtr &el) { return el->name() == var->name(); });
+  if (it == group.end()) {
     group.push_back(var);
     group_sorted.emplace(var);
     return;
@@ -45,7 +64,8 @@ void Group::add(const VariablePtr &var) {
 
 void Group::replaceVariables(const VariablesSoup &new_variables) {
   auto new_group_sorted = to_vars_set(new_variables);
-  if (new_group_sorted.size() != group.size()) {
+  if ((new_variables.size() != group.size()) ||
+      has_repeated_names(new_variables)) {
     throw Error{"Invalid new variables group"};
   }
   for (std::size_t k = 0; k < new_variables.size(); ++k) {
-- 
2.43.0


From c0ccd93262b1c7bc67df4273fea74799b20dae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:18 +0000
Subject: [PATCH 19/25] fix: no underflow or overflow when merging many unary
 factors, no nan when all images are null

---
 src/src/structure/SpecialFactors.cpp | 49 +++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index d470a10..c9312fe 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -41,24 +41,63 @@ public:
     }
     data_ = std::move(imgs);
     imgs_ = std::get_if<std::vector<float>>(&data_);
+    products_.resize(var->size());
   }
 
   void merge(const Function &subject) {
     auto it = imgs_->begin();
-    subject.forEachCombination<true>([&it](const auto &, float img) {
-      *it *= img;
+    auto product = products_.begin();
+    subject.forEachCombination<true>([&](const auto &, float img) {
+      product->multiply(img);
+      *it = product->value(0);
       ++it;
+      ++product;
     });
   }
 
   void normalize() {
-    float coeff = 1.f / *std::max_element(imgs_->begin(), imgs_->end());
-    for (auto &val : *imgs_) {
-      val *= coeff;
+    auto max = std::max_element(products_.begin(), products_.end());
+    if (0 == max->mantissa) {
+      // all the images are null: nothing to normalize
+      return;
+    }
+    const Product max_product = *max;
+    for (std::size_t k = 0; k < products_.size(); ++k) {
+      products_[k].mantissa /= max_product.mantissa;
+      (*imgs_)[k] = products_[k].value(max_product.exponent);
+      products_[k] = Product{};
+      products_[k].multiply((*imgs_)[k]);
     }
   }
 
 private:
+  // mantissa * 2^exponent, can't underflow or overflow no matter the number of
+  // merged images
+  struct Product {
+    double mantissa = 0.5;
+    long exponent = 1;
+
+    void multiply(float img) {
+      int delta;
+      mantissa = std::frexp(mantissa * img, &delta);
+      exponent = (0 == mantissa) ? 0 : exponent + delta;
+    }
+
+    float value(long reference_exponent) const {
+      const long delta =
+          std::clamp<long>(exponent - reference_exponent, -2000, 2000);
+      return static_cast<float>(std::ldexp(mantissa, static_cast<int>(delta)));
+    }
+
+    bool operator<(const Product &o) const {
+      if ((0 == mantissa) || (0 == o.mantissa)) {
+        return mantissa < o.mantissa;
+      }
+      return (exponent != o.exponent) ? (exponent < o.exponent)
+                                      : (mantissa < o.mantissa);
+    }
+  };
+  std::vector<Product> products_;
   std::vector<float> *imgs_;
 };
 } // namespace
-- 
2.43.0


From 7b214a82705f356175ae7decb9a8fd8a854931b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:18 +0000
Subject: [PATCH 20/25] fix: messages should not underflow or overflow, and
 null max-messages should remain null

---
 src/src/structure/SpecialFactors.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/src/structure/SpecialFactors.cpp b/src/src/structure/SpecialFactors.cpp
index c9312fe..fb0e772 100644
--- a/src/src/structure/SpecialFactors.cpp
+++ b/src/src/structure/SpecialFactors.cpp
@@ -9,7 +9,6 @@
 #include <EasyFactorGraph/structure/SpecialFactors.h>
 
 #include <cmath>
-#include <limits>
 #include <algorithm>
 
 namespace EFG::factor {
@@ -187,6 +186,8 @@ void fill_message(const UnaryFactor &merged_unaries,
                 message_pos);
   std::size_t message_size =
       binary_factor.function().vars().getVariables()[message_pos]->size();
+  std::vector<double> values;
+  values.reserve(message_size);
   for (std::size_t r = 0; r < message_size; ++r) {
     ReducerT reducer{};
     merged_unaries.function().forEachCombination<true>(
@@ -195,10 +196,19 @@ void fill_message(const UnaryFactor &merged_unaries,
           binary_factor_comb.resize(2);
           binary_factor_comb[sender_pos] = sender_comb.front();
           binary_factor_comb[message_pos] = r;
-          reducer.update(sender_val * binary_factor.function().findTransformed(
-                                          binary_factor_comb));
+          reducer.update(static_cast<double>(sender_val) *
+                         binary_factor.function().findTransformed(
+                             binary_factor_comb));
         });
-    recipient.set(std::vector<std::size_t>{r}, reducer.val);
+    values.push_back(reducer.val);
+  }
+  // messages are meaningful up to a scale: keep the values representable
+  const double max = *std::max_element(values.begin(), values.end());
+  const double coeff =
+      ((max > 1e30) || ((max > 0) && (max < 1e-30))) ? 1.0 / max : 1.0;
+  for (std::size_t r = 0; r < message_size; ++r) {
+    recipient.set(std::vector<std::size_t>{r},
+                  static_cast<float>(coeff * values[r]));
   }
 }
 } // namespace
@@ -208,8 +218,8 @@ MessageSUM::MessageSUM(const UnaryFactor &merged_unaries,
     : UnaryFactor(std::make_shared<Function>(
           get_other_var(binary_factor, merged_unaries.getVariable()))) {
   struct Reducer {
-    void update(float v) { val += v; }
-    float val = 0;
+    void update(double v) { val += v; }
+    double val = 0;
   };
   fill_message<Reducer>(merged_unaries, binary_factor, functionMutable());
 }
@@ -219,8 +229,8 @@ MessageMAP::MessageMAP(const UnaryFactor &merged_unaries,
     : UnaryFactor(std::make_shared<Function>(
           get_other_var(binary_factor, merged_unaries.getVariable()))) {
   struct Reducer {
-    void update(float v) { val = std::max<float>(val, v); }
-    float val = std::numeric_limits<float>::min();
+    void update(double v) { val = std::max<double>(val, v); }
+    double val = 0;
   };
   fill_message<Reducer>(merged_unaries, binary_factor, functionMutable());
 }
-- 
2.43.0


From 40cdf3f90e62997a30943c65822c5d70828c3fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:18 +0000
Subject: [PATCH 21/25] fix: do not visit combinations explicitly set to 0 as
 non null ones

---
 src/header/EasyFactorGraph/factor/Function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header/EasyFactorGraph/factor/Function.h b/src/header/EasyFactorGraph/factor/Function.h
index 3772529..abc7318 100644
--- a/src/header/EasyFactorGraph/factor/Function.h
+++ b/src/header/EasyFactorGraph/factor/Function.h
@@ -67,6 +67,9 @@ public:
     VisitorConst<SparseContainer, DenseContainer>{
         [&](const SparseContainer &c) {
           for (const auto &[comb, img] : c) {
+            if (img == 0) {
+              continue;
+            }
             float img2 = img;
             if constexpr (UseTransformed) {
               img2 = this->transform(img2);
-- 
2.43.0


From 8505d706cf26c7e8c24a4186c3557f4c601df111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:18 +0000
Subject: [PATCH 22/25] fix: do not allocate room for the entire joint domain
 when ranging over a group

---
 src/src/categoric/GroupRange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/categoric/GroupRange.cpp b/src/src/categoric/GroupRange.cpp
index f42fe12..cbeb5f1 100644
--- a/src/src/categoric/GroupRange.cpp
+++ b/src/src/categoric/GroupRange.cpp
@@ -20,7 +20,7 @@ GroupRange::Data::Data(const std::vector<size_t> &s, bool eor)
 namespace {
 std::vector<size_t> get_sizes(const Group &variables) {
   std::vector<size_t> result;
-  result.reserve(variables.size());
+  result.reserve(variables.getVariables().size());
   for (const auto &var : variables.getVariables()) {
     result.push_back(var->size());
   }
-- 
2.43.0


From 0a556a5685679d278ae2ad0295499b47d481562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:45 +0000
Subject: [PATCH 23/25] fix: threads of the sampler draw from unrelated
 sequences

---
 src/src/structure/GibbsSampler.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/src/structure/GibbsSampler.cpp b/src/src/structure/GibbsSampler.cpp
index 49773a7..df53a95 100644
--- a/src/src/structure/GibbsSampler.cpp
+++ b/src/src/structure/GibbsSampler.cpp
@@ -9,6 +9,8 @@
 #include <EasyFactorGraph/structure/SpecialFactors.h>
 
 #include <algorithm>
+#include <cstdint>
+#include <random>
 #include <time.h>
 
 namespace EFG::strct {
@@ -110,12 +112,16 @@ make_sampling_tasks(const std::vector<GibbsSampler::SamplerNode> &nodes,
                     std::vector<UniformSampler> &engines,
                     const std::optional<std::size_t> &seed, Pool &pool) {
   engines.resize(pool.size());
-  if (std::nullopt != seed) {
-    std::size_t s = *seed;
-    for (auto &engine : engines) {
-      engine.resetSeed(s);
-      s += 5;
-    }
+  // the draws of an engine should be unrelated to those of the others, which is
+  // not the case for linear congruential engines with equal or close seeds
+  const std::size_t first_seed =
+      seed.has_value() ? *seed : static_cast<std::size_t>(time(NULL));
+  std::seed_seq mixer{first_seed};
+  std::vector<std::uint32_t> seeds(engines.size());
+  mixer.generate(seeds.begin(), seeds.end());
+  engines.front().resetSeed(first_seed);
+  for (std::size_t k = 1; k < engines.size(); ++k) {
+    engines[k].resetSeed(seeds[k]);
   }
 
   std::vector<Tasks> result;
-- 
2.43.0


From 2120d65cd9a512b4f4eb380a02afc6a21546c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:16 +0000
Subject: [PATCH 24/25] fix: reject an xml specifying twice a variable with
 different sizes

---
 src/src/io/xml/Importer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/io/xml/Importer.cpp b/src/src/io/xml/Importer.cpp
index 524d127..96159a2 100644
--- a/src/src/io/xml/Importer.cpp
+++ b/src/src/io/xml/Importer.cpp
@@ -157,7 +157,10 @@ Importer::convert(Inserters subject, const std::filesystem::path &file_path) {
         const auto &name = access_attribute(*var, "name");
         const auto &size = access_attribute(*var, "Size");
         auto new_var = categoric::make_variable(std::atoi(size.c_str()), name);
-        if (variables.find(new_var) != variables.end()) {
+        if (std::find_if(variables.begin(), variables.end(),
+                         [&name](const categoric::VariablePtr &present) {
+                           return present->name() == name;
+                         }) != variables.end()) {
           throw Error::make(name, " is a multiple times specified variable ");
         }
         variables.emplace(new_var);
-- 
2.43.0


From 2cbae5498c2ba15fffcada9f13e50f0cc568520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:16 +0000
Subject: [PATCH 25/25] fix: export to xml images and weights with all their
 digits

---
 src/src/io/xml/Exporter.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/src/io/xml/Exporter.cpp b/src/src/io/xml/Exporter.cpp
index b19b5ef..88833b3 100644
--- a/src/src/io/xml/Exporter.cpp
+++ b/src/src/io/xml/Exporter.cpp
@@ -14,6 +14,10 @@
 
 #include <XML-Parser/Tag.h>
 
+#include <iomanip>
+#include <limits>
+#include <sstream>
+
 namespace EFG::io::xml {
 namespace {
 xmlPrs::Tag &printVariable(const categoric::VariablePtr &var,
@@ -32,6 +36,14 @@ void printGroup(const categoric::Group &group, xmlPrs::Tag &recipient) {
   }
 }
 
+// enough digits to get back the same value when importing
+std::string to_string_exact(float value) {
+  std::stringstream stream;
+  stream << std::setprecision(std::numeric_limits<float>::max_digits10)
+         << value;
+  return stream.str();
+}
+
 xmlPrs::Tag &printPotential(const factor::Immutable &distr,
                             xmlPrs::Tag &recipient) {
   auto &pot_tag = recipient.addNested("Potential");
@@ -40,7 +52,7 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
       [&](const auto &comb, float img) {
         auto &comb_val = pot_tag.addNested("Distr_val");
         auto &attributes = comb_val.getAttributes();
-        attributes.emplace("D", std::to_string(img));
+        attributes.emplace("D", to_string_exact(img));
         for (auto v : comb) {
           attributes.emplace("v", std::to_string(v));
         }
@@ -51,7 +63,7 @@ xmlPrs::Tag &printPotential(const factor::Immutable &distr,
 xmlPrs::Tag &printExpPotential(const factor::FactorExponential &distr,
                                xmlPrs::Tag &recipient) {
   auto &pot_tag = printPotential(distr, recipient);
-  pot_tag.getAttributes().emplace("weight", std::to_string(distr.getWeight()));
+  pot_tag.getAttributes().emplace("weight", to_string_exact(distr.getWeight()));
   return pot_tag;
 }
 } // namespace
-- 
2.43.0

