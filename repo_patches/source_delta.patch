From 38981bb0541db21f018f305fe8ec54e709a0c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 01/38] fix: keep a parameter's hash in step in compound
 assignment

operator+=, *= and /= changed the value but not the hash that equality, order
and hashing use, so x += y differed from x + y.
---
 src/psdd_parameter.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index 20c3cd9..260c7b8 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -76,28 +76,16 @@ bool PsddParameter::operator>(const PsddParameter &other) const {
 }
 
 PsddParameter &PsddParameter::operator+=(const PsddParameter &other) {
-  if (parameter_ == -std::numeric_limits<double>::infinity()) {
-    // if this is zero
-    parameter_ = other.parameter_;
-  } else if (other.parameter_ == -std::numeric_limits<double>::infinity()) {
-    // No change on the paramter_
-  } else {
-    if (parameter_ > other.parameter_) {
-      parameter_ += std::log1p(std::exp(other.parameter_ - parameter_));
-    } else {
-      parameter_ = other.parameter_ +
-                   std::log1p(std::exp(parameter_ - other.parameter_));
-    }
-  }
+  *this = *this + other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator/=(const PsddParameter &other) {
-  parameter_ -= other.parameter_;
+  *this = *this / other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator*=(const PsddParameter &other) {
-  parameter_ += other.parameter_;
+  *this = *this * other;
   return *this;
 }
-- 
2.43.0


From a5dfb3ee13d3f58503b7bfb6869b088add58fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 02/38] fix: tell top nodes apart by both parameters

Two top nodes with the same true parameter but different false parameters were
taken for the same node, so a request could return a node with another false
parameter (for instance 1,1 for an unnormalised true node).
---
 src/psdd_node.cpp         | 4 +++-
 src/psdd_unique_table.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 612736e..5228792 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -983,7 +983,8 @@ PsddTopNode::PsddTopNode(uintmax_t *node_index, Vtree *vtree_node,
 bool PsddTopNode::operator==(const PsddTopNode &other) const {
   return variable_index_ == other.variable_index_ &&
          flag_index() == other.flag_index() &&
-         true_parameter_ == other.true_parameter_;
+         true_parameter_ == other.true_parameter_ &&
+         false_parameter_ == other.false_parameter_;
 }
 
 int PsddTopNode::node_type() const { return 3; }
@@ -998,6 +999,7 @@ uint32_t PsddTopNode::variable_index() const { return variable_index_; }
 void PsddTopNode::CalculateHashValue() {
   std::size_t hash_value = std::hash<uint32_t>{}(variable_index_);
   hash_value ^= true_parameter_.hash_value() << 1;
+  hash_value ^= false_parameter_.hash_value() << 3;
   hash_value ^= std::hash<uintmax_t>{}(flag_index()) << 2;
   set_hash_value(hash_value);
 }
diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 9a19e80..95c25b0 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -31,9 +31,13 @@ struct PsddUniqueTableSetFunctional {
           node_b->psdd_top_node()->variable_index()) {
         return node_a->psdd_top_node()->variable_index() <
                node_b->psdd_top_node()->variable_index();
-      } else {
+      } else if (node_a->psdd_top_node()->true_parameter() !=
+                 node_b->psdd_top_node()->true_parameter()) {
         return node_a->psdd_top_node()->true_parameter() <
                node_b->psdd_top_node()->true_parameter();
+      } else {
+        return node_a->psdd_top_node()->false_parameter() <
+               node_b->psdd_top_node()->false_parameter();
       }
     } else {
       if (node_b->node_type() != DECISION_NODE_TYPE) {
-- 
2.43.0


From ea449f424fc55e1bfcc3050a0e92f4cba085950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 03/38] fix: multiplying with an absent (false) operand gives
 false

nullptr stands for false everywhere else, but Multiply dereferenced it.
---
 src/psdd_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 26e4627..5d40619 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -572,6 +572,10 @@ PsddNode *PsddManager::NormalizePsddNode(Vtree *target_vtree_node,
 
 std::pair<PsddNode *, PsddParameter> PsddManager::Multiply(
     PsddNode *arg1, PsddNode *arg2, uintmax_t flag_index) {
+  if (arg1 == nullptr || arg2 == nullptr) {
+    // nullptr for PsddNode means false
+    return {nullptr, PsddParameter::CreateFromDecimal(0)};
+  }
   ComputationCache cache((uint32_t)leaf_vtree_map_.size());
   return MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
 }
-- 
2.43.0


From 13be6fa65b50af15074797d124cf17347969b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 04/38] fix: multiply PSDDs that hold zero parameters

A zero parameter (as learned with no pseudo-count, or read from a file) made
the product abort on an assertion or return a node of weight zero.
---
 src/psdd_manager.cpp | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 5d40619..da13a68 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -114,12 +114,16 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
         if (cur_sub_result.first == nullptr) {
           continue;
         }
+        PsddParameter cur_second_param = second_parameters[j];
+        PsddParameter cur_weight = cur_second_param * cur_first_param *
+                                   cur_prime_result.second *
+                                   cur_sub_result.second;
+        if (cur_weight == PsddParameter::CreateFromDecimal(0)) {
+          continue;
+        }
         next_primes.push_back(cur_prime_result.first);
         next_subs.push_back(cur_sub_result.first);
-        PsddParameter cur_second_param = second_parameters[j];
-        next_parameters.push_back(cur_second_param * cur_first_param *
-                                  cur_prime_result.second *
-                                  cur_sub_result.second);
+        next_parameters.push_back(cur_weight);
         partition = partition + next_parameters.back();
       }
     }
@@ -162,6 +166,15 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
       PsddTopNode *second_top_node = second->psdd_top_node();
       assert(first_literal_node->variable_index() ==
              second_top_node->variable_index());
+      PsddParameter literal_weight = first_literal_node->sign()
+                                         ? second_top_node->true_parameter()
+                                         : second_top_node->false_parameter();
+      if (literal_weight == PsddParameter::CreateFromDecimal(0)) {
+        std::pair<PsddNode *, Probability> comp_result = {
+            nullptr, Probability::CreateFromDecimal(0)};
+        cache->Update(first, second, comp_result);
+        return comp_result;
+      }
       if (first_literal_node->sign()) {
         PsddNode *new_node = manager->GetPsddLiteralNode(
             first_literal_node->literal(), flag_index);
@@ -185,6 +198,15 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
       PsddLiteralNode *second_literal_node = second->psdd_literal_node();
       assert(first_top_node->variable_index() ==
              second_literal_node->variable_index());
+      PsddParameter literal_weight = second_literal_node->sign()
+                                         ? first_top_node->true_parameter()
+                                         : first_top_node->false_parameter();
+      if (literal_weight == PsddParameter::CreateFromDecimal(0)) {
+        std::pair<PsddNode *, Probability> comp_result = {
+            nullptr, Probability::CreateFromDecimal(0)};
+        cache->Update(first, second, comp_result);
+        return comp_result;
+      }
       if (second_literal_node->sign()) {
         PsddNode *new_node = manager->GetPsddLiteralNode(
             second_literal_node->literal(), flag_index);
@@ -210,6 +232,20 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
       PsddParameter neg_weight = first_top_node->false_parameter() *
                                  second_top_node->false_parameter();
       PsddParameter partition = pos_weight + neg_weight;
+      const PsddParameter zero = PsddParameter::CreateFromDecimal(0);
+      if (pos_weight == zero || neg_weight == zero) {
+        PsddNode *literal_node = nullptr;
+        if (partition != zero) {
+          auto literal =
+              static_cast<int32_t>(first_top_node->variable_index());
+          literal_node = manager->GetPsddLiteralNode(
+              neg_weight == zero ? literal : -literal, flag_index);
+        }
+        std::pair<PsddNode *, Probability> comp_result = {literal_node,
+                                                          partition};
+        cache->Update(first, second, comp_result);
+        return comp_result;
+      }
       PsddNode *new_node = manager->GetPsddTopNode(
           first_top_node->variable_index(), flag_index, pos_weight / partition,
           neg_weight / partition);
-- 
2.43.0


From 65bb4742a923551ee74d28028df5325be12851d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 05/38] fix: learn uniform parameters where there is neither
 data nor smoothing

---
 src/psdd_manager.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index da13a68..fde10d2 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -984,14 +984,20 @@ PsddNode *PsddManager::LearnPsddParameters(
     } else if (cur_node->node_type() == TOP_NODE_TYPE) {
       PsddTopNode *cur_top_node = cur_node->psdd_top_node();
       // Calculates laplacian smoothed data counts
-      const auto true_data_count =
+      auto true_data_count =
           PsddParameter::CreateFromDecimal(
               static_cast<double>(cur_top_node->true_data_count())) +
           alpha;
-      const auto false_data_count =
+      auto false_data_count =
           PsddParameter::CreateFromDecimal(
               static_cast<double>(cur_top_node->false_data_count())) +
           alpha;
+      if (true_data_count == PsddParameter::CreateFromDecimal(0) &&
+          false_data_count == PsddParameter::CreateFromDecimal(0)) {
+        // no data reaches this node and there is no smoothing: uniform
+        true_data_count = PsddParameter::CreateFromDecimal(1);
+        false_data_count = PsddParameter::CreateFromDecimal(1);
+      }
       const auto total_data_count = true_data_count + false_data_count;
       PsddTopNode *new_top_node =
           GetPsddTopNode(cur_top_node->variable_index(), flag_index,
@@ -1017,6 +1023,12 @@ PsddNode *PsddManager::LearnPsddParameters(
         new_primes.push_back((PsddNode *)primes[i]->user_data());
         new_subs.push_back((PsddNode *)subs[i]->user_data());
       }
+      if (total_data_counts == PsddParameter::CreateFromDecimal(0)) {
+        // no data reaches this node and there is no smoothing: uniform
+        parameters.assign(element_size, PsddParameter::CreateFromDecimal(1));
+        total_data_counts = PsddParameter::CreateFromDecimal(
+            static_cast<double>(element_size));
+      }
       for (size_t i = 0; i < element_size; ++i) {
         parameters[i] = parameters[i] / total_data_counts;
       }
-- 
2.43.0


From 1227f0df2e9439b638da07df4ee5cbdfd33f2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 06/38] fix: read zero parameters back from PSDD files

---
 src/psdd_manager.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index fde10d2..23584e3 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -6,16 +6,25 @@
 #include <psdd/psdd_unique_table.h>
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <functional>
 #include <iostream>
 #include <queue>
 #include <sstream>
 #include <stack>
+#include <string>
 #include <unordered_set>
 namespace {
 using std::unordered_set;
 
+// Stream extraction does not accept "-inf", which is how a zero is written.
+double ReadLogParameter(std::istringstream *iss) {
+  std::string token;
+  *iss >> token;
+  return std::strtod(token.c_str(), nullptr);
+}
+
 void TagSddVtreeWithPsddVtree(
     const std::vector<Vtree *> &sdd_vtree_serialized,
     const std::vector<Vtree *> &psdd_vtree_serialized) {
@@ -652,10 +661,9 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uintmax_t node_index;
       uint32_t vtree_index;
       uint32_t variable_index;
-      double neg_log_pr;
-      double pos_log_pr;
-      iss >> node_index >> vtree_index >> variable_index >> neg_log_pr >>
-          pos_log_pr;
+      iss >> node_index >> vtree_index >> variable_index;
+      double neg_log_pr = ReadLogParameter(&iss);
+      double pos_log_pr = ReadLogParameter(&iss);
       PsddNode *cur_node = GetPsddTopNode(
           variable_index, flag_index, PsddParameter::CreateFromLog(pos_log_pr),
           PsddParameter::CreateFromLog(neg_log_pr));
@@ -674,8 +682,8 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       for (size_t j = 0; j < element_size; j++) {
         uintmax_t prime_index;
         uintmax_t sub_index;
-        double weight_in_log;
-        iss >> prime_index >> sub_index >> weight_in_log;
+        iss >> prime_index >> sub_index;
+        double weight_in_log = ReadLogParameter(&iss);
         assert(construct_cache.find(prime_index) != construct_cache.end());
         assert(construct_cache.find(sub_index) != construct_cache.end());
         PsddNode *prime_node = construct_cache[prime_index];
-- 
2.43.0


From 5e979acba572b47a97686764dbc0661fbc489dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:29 +0000
Subject: [PATCH 07/38] fix: sample a possible value when a draw is close to
 the maximum

---
 src/psdd_node.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 5228792..270543a 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -940,19 +940,26 @@ void PsddDecisionNode::DirectSample(
   PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
       (generator->generate() - generator->min()) /
       (generator->max() - generator->min()));
-  PsddParameter acc = PsddParameter::CreateFromDecimal(0);
+  const PsddParameter zero = PsddParameter::CreateFromDecimal(0);
+  PsddParameter acc = zero;
   auto element_size = primes_.size();
+  // The accumulated parameters can stay short of a draw close to the maximum,
+  // in which case the last possible partition is used.
+  size_t selected = element_size;
   for (size_t i = 0; i < element_size; ++i) {
     PsddParameter cur_parameter = parameters_[i];
+    if (cur_parameter == zero) {
+      continue;
+    }
+    selected = i;
     acc = acc + cur_parameter;
     if (uniform_rand < acc) {
-      // Use this partition
-      primes_[i]->DirectSample(instantiation, generator);
-      subs_[i]->DirectSample(instantiation, generator);
-      return;
+      break;
     }
   }
-  assert(false);
+  assert(selected != element_size);
+  primes_[selected]->DirectSample(instantiation, generator);
+  subs_[selected]->DirectSample(instantiation, generator);
 }
 const std::vector<uintmax_t> &PsddDecisionNode::data_counts() const {
   return data_counts_;
@@ -1024,7 +1031,9 @@ void PsddTopNode::DirectSample(std::bitset<MAX_VAR> *instantiation,
   PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
       (generator->generate() - generator->min()) /
       (generator->max() - generator->min()));
-  if (uniform_rand < true_parameter_) {
+  // a draw close to the maximum must not select an impossible value
+  if (uniform_rand < true_parameter_ ||
+      false_parameter_ == PsddParameter::CreateFromDecimal(0)) {
     instantiation->set(variable_index_);
   }
 }
-- 
2.43.0


From 25fb30207904a54adf1939a332a620f368c67a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 08/38] fix: list parents before children when several roots
 are serialised

---
 src/psdd_node.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 270543a..ac15eb6 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -288,6 +288,24 @@ SerializePsddNodes(const std::vector<PsddNode *> &root_nodes) {
     }
     ++explore_index;
   }
+  if (root_nodes.size() > 1) {
+    // The roots can be at different depths of the vtree and contain each other,
+    // but parents are always above their children.
+    std::unordered_map<Vtree *, uintmax_t> depths;
+    for (const auto cur_node : result) {
+      uintmax_t depth = 0;
+      for (Vtree *cur_vtree = cur_node->vtree_node(); cur_vtree != nullptr;
+           cur_vtree = sdd_vtree_parent(cur_vtree)) {
+        ++depth;
+      }
+      depths[cur_node->vtree_node()] = depth;
+    }
+    std::stable_sort(result.begin(), result.end(),
+                     [&depths](const PsddNode *lhs, const PsddNode *rhs) {
+                       return depths.at(lhs->vtree_node()) <
+                              depths.at(rhs->vtree_node());
+                     });
+  }
   return result;
 }
 
-- 
2.43.0


From 9877f0d98988aa544da0dc203d50b907ce42317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:21 +0000
Subject: [PATCH 09/38] fix: release the nodes a collection removes

---
 src/psdd_unique_table.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 95c25b0..2494a73 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -271,7 +271,9 @@ class PsddUniqueTableImp : public PsddUniqueTable {
       while (node_it != decision_table_it->second.end()) {
         if (covered_nodes.find((*node_it)->node_index()) ==
             covered_nodes.end()) {
+          PsddNode *unused_node = *node_it;
           node_it = decision_table_it->second.erase(node_it);
+          delete unused_node;
         } else {
           ++node_it;
         }
@@ -289,7 +291,9 @@ class PsddUniqueTableImp : public PsddUniqueTable {
       while (node_it != literal_table_it->second.end()) {
         if (covered_nodes.find((*node_it)->node_index()) ==
             covered_nodes.end()) {
+          PsddNode *unused_node = *node_it;
           node_it = literal_table_it->second.erase(node_it);
+          delete unused_node;
         } else {
           ++node_it;
         }
@@ -307,7 +311,9 @@ class PsddUniqueTableImp : public PsddUniqueTable {
       while (node_it != top_table_it->second.end()) {
         if (covered_nodes.find((*node_it)->node_index()) ==
             covered_nodes.end()) {
+          PsddNode *unused_node = *node_it;
           node_it = top_table_it->second.erase(node_it);
+          delete unused_node;
         } else {
           ++node_it;
         }
-- 
2.43.0


From 84e9aaaf28fb4c68ad681ca24424750c89f18fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 10/38] fix: blank CNF lines are no clauses and clauses after a
 0 on a line are kept

---
 src/cnf.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 349bfb1..731ad1b 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -55,11 +55,16 @@ CNF::CNF(const char *filename) {
     SddLiteral token;
     while (ss >> token) {
       if (token == 0) {
-        break;
+        clauses_.push_back(clause);
+        clause.clear();
+      } else {
+        clause.push_back(token);
       }
-      clause.push_back(token);
     }
-    clauses_.push_back(clause);
+    // The end of the line closes a clause as well.
+    if (!clause.empty()) {
+      clauses_.push_back(clause);
+    }
   }
   cnf_file.close();
 }
-- 
2.43.0


From 7cb6b1380296cce7a6f1feceecb1d3858eff94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 11/38] fix: hypergraph vtrees contain the variables that are
 in no factor

---
 src/hypergraph_decomposition_vtree.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index 648b254..e4b5134 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -273,6 +273,16 @@ Vtree* HypergraphDecompositionVtree::ConstructVtree() {
                                                                      start)
                    .count()
             << " ms" << std::endl;
+  // The variables that appear in no factor are independent of all others.
+  std::unordered_set<size_t> factor_variables;
+  for (const auto& cur_factor_scope : factor_scopes) {
+    factor_variables.insert(cur_factor_scope.begin(), cur_factor_scope.end());
+  }
+  for (size_t i = 1; i <= network_->var_size(); ++i) {
+    if (factor_variables.find(i) == factor_variables.end()) {
+      v = new_internal_vtree(new_leaf_vtree(i), v);
+    }
+  }
   set_vtree_properties(v);
   kahypar_context_free(context);
   return v;
-- 
2.43.0


From 6e1d011069ad76b72980ba39d44cbe5296adf598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 12/38] fix: factors of three or more variables can be compiled
 for any vtree

---
 src/pgm_compiler.cpp | 244 +++++++++++++++++++------------------------
 1 file changed, 108 insertions(+), 136 deletions(-)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index e1562f1..29ce61c 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -31,151 +31,123 @@ extern "C" {
 #include <sdd/sddapi.h>
 };
 
-PgmCompiler::PgmCompiler(std::string working_dir)
-    : m_network(nullptr), m_pm(nullptr), working_dir_(std::move(working_dir)) {}
+namespace {
+// A factor whose table is indexed by the values of the variables in its scope.
+struct FactorTable {
+  const std::vector<PsddParameter>& entries;
+  // key is the variable, value is its bit in the index of an entry
+  std::unordered_map<SddLiteral, size_t> variable_bits;
+};
 
-std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
-    size_t factor_index) {
-  std::vector<size_t> factor_scope = m_network->factor_scopes()[factor_index];
-  const auto& cluster_param = m_network->params()[factor_index];
-  Vtree* vtree = m_pm->vtree();
-  // LSB is the first variable in ordered_cluster_variables now
-  std::reverse(factor_scope.begin(), factor_scope.end());
-  std::vector<Vtree*> leaf_v_nodes;
-  auto vtree_nodes = vtree_util::SerializeVtree(vtree);
-  for (size_t var_idx : factor_scope) {
-    for (Vtree* v : vtree_nodes) {
-      if (sdd_vtree_is_leaf(v) && sdd_vtree_var(v) == var_idx) {
-        leaf_v_nodes.push_back(v);
-      }
-    }
+std::vector<size_t> VariableBits(const FactorTable& table, Vtree* vtree) {
+  std::vector<size_t> bits;
+  for (SddLiteral variable : vtree_util::VariablesUnderVtree(vtree)) {
+    bits.push_back(table.variable_bits.at(variable));
   }
-  std::sort(leaf_v_nodes.begin(), leaf_v_nodes.end(),
-            [](const Vtree* a, const Vtree* b) {
-              return sdd_vtree_position(a) > sdd_vtree_position(b);
-            });
-  std::vector<size_t> var_location_in_cluster;
-  for (Vtree* leaf_v : leaf_v_nodes) {
-    size_t var_idx = sdd_vtree_var(leaf_v);
-    for (auto j = 0; j < factor_scope.size(); ++j) {
-      size_t f_var_idx = factor_scope[j];
-      if (f_var_idx == var_idx) {
-        var_location_in_cluster.push_back(j);
-        break;
-      }
-    }
+  return bits;
+}
+
+// The conjunction of literals of the variables under scope_vtree given by the
+// bits of index.
+PsddNode* CompileTerm(PsddManager* manager, const FactorTable& table,
+                      Vtree* scope_vtree, size_t index) {
+  if (sdd_vtree_is_leaf(scope_vtree)) {
+    SddLiteral variable = sdd_vtree_var(scope_vtree);
+    bool value = (index >> table.variable_bits.at(variable)) & 1;
+    return manager->GetPsddLiteralNode(value ? variable : -variable,
+                                       /*flag_index*/ 0);
   }
-  assert(var_location_in_cluster.size() == factor_scope.size());
-  std::unordered_map<std::size_t, PsddNode*>* context_node_cache =
-      new std::unordered_map<std::size_t, PsddNode*>();
-  std::unordered_map<std::size_t, PsddParameter>* context_norm_cache =
-      new std::unordered_map<std::size_t, PsddParameter>();
-  size_t term_var_loc = var_location_in_cluster[0];
-  size_t mask = (size_t)((~0x0) ^ (1 << term_var_loc));
-  PsddParameter zero_param = PsddParameter::CreateFromDecimal(0);
-  for (auto k = cluster_param.begin(); k != cluster_param.end(); k++) {
-    size_t param_index = (size_t)(k - cluster_param.begin());
-    size_t context = param_index & mask;
-    if (context_node_cache->find(context) != context_node_cache->end()) {
-      continue;
+  PsddNode* left =
+      CompileTerm(manager, table, sdd_vtree_left(scope_vtree), index);
+  PsddNode* right =
+      CompileTerm(manager, table, sdd_vtree_right(scope_vtree), index);
+  return manager->GetConformedPsddDecisionNode(
+      {left}, {right}, {PsddParameter::CreateFromDecimal(1)},
+      /*flag_index*/ 0);
+}
+
+// The distribution over the variables under scope_vtree when the bits of all
+// others are given by context, and its normalizing constant.
+std::pair<PsddNode*, PsddParameter> CompileContext(PsddManager* manager,
+                                                   const FactorTable& table,
+                                                   Vtree* scope_vtree,
+                                                   size_t context) {
+  const PsddParameter zero_param = PsddParameter::CreateFromDecimal(0);
+  if (sdd_vtree_is_leaf(scope_vtree)) {
+    SddLiteral variable = sdd_vtree_var(scope_vtree);
+    PsddParameter neg_weight = table.entries[context];
+    PsddParameter pos_weight =
+        table.entries[context |
+                      ((size_t)1 << table.variable_bits.at(variable))];
+    PsddParameter new_norm = pos_weight + neg_weight;
+    if (new_norm == zero_param) {
+      return {nullptr, zero_param};
+    } else if (pos_weight == zero_param) {
+      return {manager->GetPsddLiteralNode(-variable, /*flag_index*/ 0),
+              new_norm};
+    } else if (neg_weight == zero_param) {
+      return {manager->GetPsddLiteralNode(variable, /*flag_index*/ 0),
+              new_norm};
     } else {
-      size_t neg_index = context;
-      size_t pos_index = context | (1 << term_var_loc);
-      PsddParameter neg_weight = cluster_param[neg_index];
-      PsddParameter pos_weight = cluster_param[pos_index];
-      PsddParameter new_norm = pos_weight + neg_weight;
-      if (new_norm == zero_param) {
-        context_node_cache->insert({context, nullptr});
-        context_norm_cache->insert({context, zero_param});
-      } else if (pos_weight == zero_param) {
-        context_node_cache->insert(
-            {context, m_pm->GetPsddLiteralNode(-sdd_vtree_var(leaf_v_nodes[0]),
-                                               /*flag_index*/ 0)});
-        context_norm_cache->insert({context, new_norm});
-      } else if (neg_weight == zero_param) {
-        context_node_cache->insert(
-            {context, m_pm->GetPsddLiteralNode(sdd_vtree_var(leaf_v_nodes[0]),
-                                               /*flag_index*/ 0)});
-        context_norm_cache->insert({context, new_norm});
-      } else {
-        PsddParameter pos_weight_renorm = pos_weight / new_norm;
-        PsddParameter neg_weight_renorm = neg_weight / new_norm;
-        context_node_cache->insert(
-            {context, m_pm->GetPsddTopNode(sdd_vtree_var(leaf_v_nodes[0]),
-                                           /*flag_index*/ 0, pos_weight_renorm,
-                                           neg_weight_renorm)});
-        context_norm_cache->insert({context, new_norm});
-      }
+      return {manager->GetPsddTopNode(variable, /*flag_index*/ 0,
+                                      pos_weight / new_norm,
+                                      neg_weight / new_norm),
+              new_norm};
     }
   }
-  for (auto k = leaf_v_nodes.begin() + 1; k != leaf_v_nodes.end(); k++) {
-    std::unordered_map<std::size_t, PsddNode*>* context_node_cache_out =
-        new std::unordered_map<std::size_t, PsddNode*>();
-    std::unordered_map<std::size_t, PsddParameter>* context_norm_cache_out =
-        new std::unordered_map<std::size_t, PsddParameter>();
-    size_t cond_var_location =
-        var_location_in_cluster[k - leaf_v_nodes.begin()];
-    mask = (size_t)((~0x0) ^ (1 << cond_var_location));
-    for (auto p = context_node_cache->begin(); p != context_node_cache->end();
-         p++) {
-      size_t last_context = p->first;
-      size_t next_context = last_context & mask;
-      if (context_node_cache_out->find(next_context) !=
-          context_node_cache_out->end()) {
-        continue;
-      }
-      PsddParameter neg_param = context_norm_cache->at(next_context);
-      PsddParameter pos_param =
-          context_norm_cache->at(next_context | (1 << cond_var_location));
-      PsddParameter new_norm = pos_param + neg_param;
-      if (new_norm == zero_param) {
-        context_node_cache_out->insert({next_context, nullptr});
-        context_norm_cache_out->insert({next_context, zero_param});
-      } else if (pos_param == zero_param) {
-        PsddNode* neg_lit =
-            m_pm->GetPsddLiteralNode(-sdd_vtree_var(*k), /*flag_index*/ 0);
-        PsddNode* next_node = m_pm->GetConformedPsddDecisionNode(
-            {neg_lit}, {context_node_cache->at(next_context)},
-            {PsddParameter::CreateFromDecimal(1)}, /*flag_index*/ 0);
-        context_node_cache_out->insert({next_context, next_node});
-        context_norm_cache_out->insert({next_context, neg_param});
-      } else if (neg_param == zero_param) {
-        PsddNode* pos_lit =
-            m_pm->GetPsddLiteralNode(sdd_vtree_var(*k), /*flag_index*/ 0);
-        PsddNode* next_node = m_pm->GetConformedPsddDecisionNode(
-            {pos_lit},
-            {context_node_cache->at(next_context | (1 << cond_var_location))},
-            {PsddParameter::CreateFromDecimal(1)}, /*flag_index*/ 0);
-        context_node_cache_out->insert({next_context, next_node});
-        context_norm_cache_out->insert({next_context, pos_param});
-      } else {
-        PsddNode* pos_lit =
-            m_pm->GetPsddLiteralNode(sdd_vtree_var(*k), /*flag_index*/ 0);
-        PsddNode* neg_lit =
-            m_pm->GetPsddLiteralNode(-sdd_vtree_var(*k), /*flag_index*/ 0);
-        PsddNode* next_node = m_pm->GetConformedPsddDecisionNode(
-            {pos_lit, neg_lit},
-            {context_node_cache->at(next_context | (1 << cond_var_location)),
-             context_node_cache->at(next_context)},
-            {pos_param / new_norm, neg_param / new_norm}, /*flag_index*/ 0);
-        context_node_cache_out->insert({next_context, next_node});
-        context_norm_cache_out->insert({next_context, new_norm});
-      }
+  Vtree* left_vtree = sdd_vtree_left(scope_vtree);
+  Vtree* right_vtree = sdd_vtree_right(scope_vtree);
+  std::vector<size_t> left_bits = VariableBits(table, left_vtree);
+  std::vector<PsddNode*> primes;
+  std::vector<PsddNode*> subs;
+  std::vector<PsddParameter> params;
+  PsddParameter new_norm = zero_param;
+  for (size_t i = 0; i < ((size_t)1 << left_bits.size()); ++i) {
+    size_t left_context = context;
+    for (size_t j = 0; j < left_bits.size(); ++j) {
+      left_context |= ((i >> j) & 1) << left_bits[j];
     }
-    delete context_node_cache;
-    delete context_norm_cache;
-    context_node_cache = context_node_cache_out;
-    context_norm_cache = context_norm_cache_out;
+    auto sub = CompileContext(manager, table, right_vtree, left_context);
+    if (sub.first == nullptr) {
+      continue;
+    }
+    primes.push_back(CompileTerm(manager, table, left_vtree, left_context));
+    subs.push_back(sub.first);
+    params.push_back(sub.second);
+    new_norm = new_norm + sub.second;
+  }
+  if (primes.empty()) {
+    return {nullptr, zero_param};
+  }
+  for (auto& param : params) {
+    param = param / new_norm;
   }
+  return {manager->GetConformedPsddDecisionNode(primes, subs, params,
+                                                /*flag_index*/ 0),
+          new_norm};
+}
+}  // namespace
+
+PgmCompiler::PgmCompiler(std::string working_dir)
+    : m_network(nullptr), m_pm(nullptr), working_dir_(std::move(working_dir)) {}
 
-  assert(context_node_cache->size() == 1);
-  assert(context_node_cache->find(0) != context_node_cache->end());
-  assert(context_norm_cache->size() == 1);
-  assert(context_norm_cache->find(0) != context_norm_cache->end());
-  PsddNode* result = context_node_cache->begin()->second;
-  PsddParameter result_norm = context_norm_cache->begin()->second;
-  delete context_node_cache;
-  delete context_norm_cache;
+std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
+    size_t factor_index) {
+  const std::vector<size_t>& factor_scope =
+      m_network->factor_scopes()[factor_index];
+  FactorTable table{m_network->params()[factor_index], {}};
+  // the last variable of the scope is the LSB of the index
+  for (size_t i = 0; i < factor_scope.size(); ++i) {
+    table.variable_bits[factor_scope[i]] = factor_scope.size() - 1 - i;
+  }
+  Vtree* scope_vtree = vtree_util::ProjectVtree(
+      m_pm->vtree(),
+      std::vector<SddLiteral>(factor_scope.begin(), factor_scope.end()));
+  auto compiled_factor =
+      CompileContext(m_pm, table, scope_vtree, /*context*/ 0);
+  sdd_vtree_free(scope_vtree);
+  PsddNode* result = compiled_factor.first;
+  PsddParameter result_norm = compiled_factor.second;
   return {m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0),
           result_norm};
 }
-- 
2.43.0


From f34cba6bf904d1272638df69fc7bc51a95084ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:02 +0000
Subject: [PATCH 13/38] fix: a network whose product is zero everywhere gives
 no PSDD and constant 0

---
 src/pgm_compiler.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index 29ce61c..c14eefe 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -148,6 +148,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
   sdd_vtree_free(scope_vtree);
   PsddNode* result = compiled_factor.first;
   PsddParameter result_norm = compiled_factor.second;
+  if (result == nullptr) {
+    // Every entry of the factor is zero.
+    return {nullptr, result_norm};
+  }
   return {m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0),
           result_norm};
 }
@@ -170,6 +174,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     Vtree* attached_vnode = nullptr;
@@ -215,6 +222,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
           std::cout << "Processed " << proc_nodes << " Remaining "
                     << nodes.size() - proc_nodes << std::endl;
           total = mult_result.first;
+          if (mult_result.first == nullptr) {
+            return {nullptr, PsddParameter::CreateFromDecimal(0)};
+          }
           z *= mult_result.second;
         }
       }
@@ -235,6 +245,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     std::cout << "Processed " << proc_nodes << " Remaining "
               << nodes.size() - proc_nodes << std::endl;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     z *= mult_result.second;
     output_buffer.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
@@ -265,6 +278,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -300,6 +316,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
       auto mult_result =
           m_pm->Multiply(final_result, cur_node, /*flag_index*/ 0);
       final_result = mult_result.first;
+      if (mult_result.first == nullptr) {
+        return {nullptr, PsddParameter::CreateFromDecimal(0)};
+      }
       z *= mult_result.second;
     }
     proc_nodes++;
@@ -326,6 +345,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -375,6 +397,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
     std::cout.width(15);
     std::cout << std::left << nodes.size() - proc_nodes << std::flush;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     z *= mult_result.second;
     nodes_to_mult.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
-- 
2.43.0


From 930d8b90bea383dc95cb39ad1fe605f050264c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:10 +0000
Subject: [PATCH 14/38] fix: variables outside the scope of a factor are
 normalized

---
 src/pgm_compiler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index c14eefe..3030000 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -152,8 +152,13 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
     // Every entry of the factor is zero.
     return {nullptr, result_norm};
   }
-  return {m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0),
-          result_norm};
+  PsddNode* extended_result =
+      m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0);
+  // The variables outside of the scope are free and have to be normalized.
+  auto normalized_result = m_pm->Multiply(
+      extended_result, m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0),
+      /*flag_index*/ 0);
+  return {normalized_result.first, result_norm * normalized_result.second};
 }
 std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     size_t gc_freq) {
-- 
2.43.0


From 5f5184d64c83b1f9efcf11dfbb28031b93fe27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:11 +0000
Subject: [PATCH 15/38] fix: the working directory of the hypergraph vtree
 method can have a long name

---
 src/hypergraph_decomposition_vtree.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index e4b5134..d0b35ce 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -3,9 +3,9 @@
 #include <assert.h>
 
 #include <chrono>
-#include <cstring>
 #include <fstream>
 #include <iostream>
+#include <string>
 #include <unordered_map>
 #include <vector>
 
@@ -73,15 +73,12 @@ r-hfc-mbc=true
 
 kahypar_context_t* CreateContext(const char* working_dir) {
   std::ofstream config_file;
-  char fname[500];
-  fname[0] = '\0';
-  strcpy(fname, working_dir);
-  strcat(fname, "/config.ini");
+  std::string fname = std::string(working_dir) + "/config.ini";
   config_file.open(fname);
   config_file << kahypar_config;
   config_file.close();
   kahypar_context_t* context = kahypar_context_new();
-  kahypar_configure_context_from_file(context, fname);
+  kahypar_configure_context_from_file(context, fname.c_str());
   return context;
 }
 
-- 
2.43.0


From 1b991078b44d6ad5254623a7c6f8309b70eb9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:35 +0000
Subject: [PATCH 16/38] fix: uai_compiler reports a network that is zero
 everywhere

---
 uai_compiler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uai_compiler.cpp b/uai_compiler.cpp
index d8f55fa..ece4313 100644
--- a/uai_compiler.cpp
+++ b/uai_compiler.cpp
@@ -62,6 +62,10 @@ int main(int argc, const char* argv[]) {
     pc.init_psdd_manager_from_vtree(vtree_method);
   }
   auto result = pc.compile_network_dc(100);
+  if (result.first == nullptr) {
+    std::cout << "UNSATISFIED" << std::endl;
+    return 0;
+  }
 
   // output filename
   char psdd_fname[1000];
-- 
2.43.0


From fa22f15a82b7d60d5b617f8819e406bff2cfc748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:59 +0000
Subject: [PATCH 17/38] fix: uai_compiler takes file names of any length

---
 uai_compiler.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/uai_compiler.cpp b/uai_compiler.cpp
index ece4313..37a4d32 100644
--- a/uai_compiler.cpp
+++ b/uai_compiler.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <cstring>
 #include <iostream>
+#include <string>
 
 #include "psdd/pgm_compiler.h"
 
@@ -68,13 +69,11 @@ int main(int argc, const char* argv[]) {
   }
 
   // output filename
-  char psdd_fname[1000];
-  char vtree_fname[1000];
-  sprintf(psdd_fname, "%s.psdd", uai_fname);
-  sprintf(vtree_fname, "%s.vtree", uai_fname);
+  std::string psdd_fname = std::string(uai_fname) + ".psdd";
+  std::string vtree_fname = std::string(uai_fname) + ".vtree";
 
-  psdd_node_util::WritePsddToFile(result.first, psdd_fname);
-  sdd_vtree_save(vtree_fname, pc.psdd_manager()->vtree());
+  psdd_node_util::WritePsddToFile(result.first, psdd_fname.c_str());
+  sdd_vtree_save(vtree_fname.c_str(), pc.psdd_manager()->vtree());
   std::cout << "Final size "
             << psdd_node_util::SerializePsddNodes(result.first).size()
             << std::endl;
-- 
2.43.0


From ab6719a38e7d1f2fb23eb5bad742caeab6de75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 18/38] fix: a new dataset starts empty

---
 include/psdd/binary_data.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/psdd/binary_data.h b/include/psdd/binary_data.h
index d4822fd..82b6ff8 100644
--- a/include/psdd/binary_data.h
+++ b/include/psdd/binary_data.h
@@ -27,8 +27,8 @@ class BinaryData {
   double CalculateEntropy() const;
  private:
   std::unordered_map<std::bitset<MAX_VAR>, uintmax_t> data_;
-  uint32_t variable_size_;
-  uintmax_t data_size_;
+  uint32_t variable_size_ = 0;
+  uintmax_t data_size_ = 0;
 };
 
 #endif //STRUCTURED_BAYESIAN_NETWORK_BINARY_DATA_H
-- 
2.43.0


From e7e55650f477e79abecf814a51cf236668f4cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 19/38] fix: loading a dataset replaces what the object held

---
 src/binary_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 3342a4a..9218d15 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -18,6 +18,7 @@ void BinaryData::ReadFile(const char *data_file) {
     exit(1);
   }
   CsvRow *row;
+  data_.clear();
   data_size_ = 0;
   variable_size_ = 0;
   while ((row = CsvParser_getRow(csvparser))) {
-- 
2.43.0


From 457e52c89831ad750a6a45d8657fa24fae9c5da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 20/38] fix: the delimited-text reader stays within its string

---
 src/csvparser.c | 484 ++++++++++++++++++++++++------------------------
 1 file changed, 244 insertions(+), 240 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 7e62b4a..26575c8 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -1,240 +1,244 @@
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <errno.h>
-
-#include <psdd/csvparser.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
-  if (filePath == NULL) {
-    csvParser->filePath_ = NULL;
-  } else {
-    int filePathLen = strlen(filePath);
-    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
-    strcpy(csvParser->filePath_, filePath);
-  }
-  csvParser->firstLineIsHeader_ = firstLineIsHeader;
-  csvParser->errMsg_ = NULL;
-  if (delimiter == NULL) {
-    csvParser->delimiter_ = ',';
-  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
-    csvParser->delimiter_ = *delimiter;
-  } else {
-    csvParser->delimiter_ = '\0';
-  }
-  csvParser->header_ = NULL;
-  csvParser->fileHandler_ = NULL;
-  csvParser->fromString_ = 0;
-  csvParser->csvString_ = NULL;
-  csvParser->csvStringIter_ = 0;
-
-  return csvParser;
-}
-
-CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
-  csvParser->fromString_ = 1;
-  if (csvString != NULL) {
-    int csvStringLen = strlen(csvString);
-    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
-    strcpy(csvParser->csvString_, csvString);
-  }
-  return csvParser;
-}
-
-void CsvParser_destroy(CsvParser *csvParser) {
-  if (csvParser == NULL) {
-    return;
-  }
-  if (csvParser->filePath_ != NULL) {
-    free(csvParser->filePath_);
-  }
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  if (csvParser->fileHandler_ != NULL) {
-    fclose(csvParser->fileHandler_);
-  }
-  if (csvParser->header_ != NULL) {
-    CsvParser_destroy_row(csvParser->header_);
-  }
-  if (csvParser->csvString_ != NULL) {
-    free(csvParser->csvString_);
-  }
-  free(csvParser);
-}
-
-void CsvParser_destroy_row(CsvRow *csvRow) {
-  int i;
-  for (i = 0; i < csvRow->numOfFields_; i++) {
-    free(csvRow->fields_[i]);
-  }
-  free(csvRow->fields_);
-  free(csvRow);
-}
-
-const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
-  if (!csvParser->firstLineIsHeader_) {
-    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
-    return NULL;
-  }
-  if (csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return csvParser->header_;
-}
-
-CsvRow *CsvParser_getRow(CsvParser *csvParser) {
-  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return _CsvParser_getRow(csvParser);
-}
-
-int CsvParser_getNumFields(const CsvRow *csvRow) {
-  return csvRow->numOfFields_;
-}
-
-const char **CsvParser_getFields(const CsvRow *csvRow) {
-  return (const char **) csvRow->fields_;
-}
-
-CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
-  int numRowRealloc = 0;
-  int acceptedFields = 64;
-  int acceptedCharsInField = 64;
-  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
-    return NULL;
-  }
-  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
-    return NULL;
-  }
-  if (csvParser->delimiter_ == '\0') {
-    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
-    return NULL;
-  }
-  if (!csvParser->fromString_) {
-    if (csvParser->fileHandler_ == NULL) {
-      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
-      if (csvParser->fileHandler_ == NULL) {
-        int errorNum = errno;
-        const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
-        strcpy(errMsg, "");
-        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
-        _CsvParser_setErrorMessage(csvParser, errMsg);
-        free(errMsg);
-        return NULL;
-      }
-    }
-  }
-  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
-  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
-  csvRow->numOfFields_ = 0;
-  int fieldIter = 0;
-  char *currField = (char *) malloc(acceptedCharsInField);
-  int inside_complex_field = 0;
-  int currFieldCharIter = 0;
-  int seriesOfQuotesLength = 0;
-  int lastCharIsQuote = 0;
-  int isEndOfFile = 0;
-  while (1) {
-    char currChar =
-        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
-    int endOfFileIndicator;
-    if (csvParser->fromString_) {
-      endOfFileIndicator = (currChar == '\0');
-    } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_);
-    }
-    if (endOfFileIndicator) {
-      if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
-        free(currField);
-        CsvParser_destroy_row(csvRow);
-        return NULL;
-      }
-      currChar = '\n';
-      isEndOfFile = 1;
-    }
-    if (currChar == '\r') {
-      continue;
-    }
-    if (currFieldCharIter == 0 && !lastCharIsQuote) {
-      if (currChar == '\"') {
-        inside_complex_field = 1;
-        lastCharIsQuote = 1;
-        continue;
-      }
-    } else if (currChar == '\"') {
-      seriesOfQuotesLength++;
-      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
-      if (inside_complex_field) {
-        currFieldCharIter--;
-      }
-    } else {
-      seriesOfQuotesLength = 0;
-    }
-    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
-      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
-      strcpy(csvRow->fields_[fieldIter], currField);
-      free(currField);
-      csvRow->numOfFields_++;
-      if (currChar == '\n') {
-        return csvRow;
-      }
-      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
-        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
-        numRowRealloc++;
-      }
-      acceptedCharsInField = 64;
-      currField = (char *) malloc(acceptedCharsInField);
-      currFieldCharIter = 0;
-      fieldIter++;
-      inside_complex_field = 0;
-    } else {
-      currField[currFieldCharIter] = currChar;
-      currFieldCharIter++;
-      if (currFieldCharIter == acceptedCharsInField - 1) {
-        acceptedCharsInField *= 2;
-        currField = (char *) realloc(currField, acceptedCharsInField);
-      }
-    }
-    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
-  }
-}
-
-int _CsvParser_delimiterIsAccepted(const char *delimiter) {
-  char actualDelimiter = *delimiter;
-  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
-      actualDelimiter == '\"') {
-    return 0;
-  }
-  return 1;
-}
-
-void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  int errMsgLen = strlen(errorMessage);
-  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
-  strcpy(csvParser->errMsg_, errorMessage);
-}
-
-const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
-  return csvParser->errMsg_;
-}
-
-#ifdef __cplusplus
-}
-#endif
+#include <stdlib.h>
+#include <string.h>
+#include <stdio.h>
+#include <errno.h>
+
+#include <psdd/csvparser.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
+  if (filePath == NULL) {
+    csvParser->filePath_ = NULL;
+  } else {
+    int filePathLen = strlen(filePath);
+    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
+    strcpy(csvParser->filePath_, filePath);
+  }
+  csvParser->firstLineIsHeader_ = firstLineIsHeader;
+  csvParser->errMsg_ = NULL;
+  if (delimiter == NULL) {
+    csvParser->delimiter_ = ',';
+  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
+    csvParser->delimiter_ = *delimiter;
+  } else {
+    csvParser->delimiter_ = '\0';
+  }
+  csvParser->header_ = NULL;
+  csvParser->fileHandler_ = NULL;
+  csvParser->fromString_ = 0;
+  csvParser->csvString_ = NULL;
+  csvParser->csvStringIter_ = 0;
+
+  return csvParser;
+}
+
+CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
+  csvParser->fromString_ = 1;
+  if (csvString != NULL) {
+    int csvStringLen = strlen(csvString);
+    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
+    strcpy(csvParser->csvString_, csvString);
+  }
+  return csvParser;
+}
+
+void CsvParser_destroy(CsvParser *csvParser) {
+  if (csvParser == NULL) {
+    return;
+  }
+  if (csvParser->filePath_ != NULL) {
+    free(csvParser->filePath_);
+  }
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  if (csvParser->fileHandler_ != NULL) {
+    fclose(csvParser->fileHandler_);
+  }
+  if (csvParser->header_ != NULL) {
+    CsvParser_destroy_row(csvParser->header_);
+  }
+  if (csvParser->csvString_ != NULL) {
+    free(csvParser->csvString_);
+  }
+  free(csvParser);
+}
+
+void CsvParser_destroy_row(CsvRow *csvRow) {
+  int i;
+  for (i = 0; i < csvRow->numOfFields_; i++) {
+    free(csvRow->fields_[i]);
+  }
+  free(csvRow->fields_);
+  free(csvRow);
+}
+
+const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
+  if (!csvParser->firstLineIsHeader_) {
+    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
+    return NULL;
+  }
+  if (csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return csvParser->header_;
+}
+
+CsvRow *CsvParser_getRow(CsvParser *csvParser) {
+  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return _CsvParser_getRow(csvParser);
+}
+
+int CsvParser_getNumFields(const CsvRow *csvRow) {
+  return csvRow->numOfFields_;
+}
+
+const char **CsvParser_getFields(const CsvRow *csvRow) {
+  return (const char **) csvRow->fields_;
+}
+
+CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
+  int numRowRealloc = 0;
+  int acceptedFields = 64;
+  int acceptedCharsInField = 64;
+  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
+    return NULL;
+  }
+  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
+    return NULL;
+  }
+  if (csvParser->delimiter_ == '\0') {
+    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
+    return NULL;
+  }
+  if (!csvParser->fromString_) {
+    if (csvParser->fileHandler_ == NULL) {
+      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
+      if (csvParser->fileHandler_ == NULL) {
+        int errorNum = errno;
+        const char *errStr = strerror(errorNum);
+        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        strcpy(errMsg, "");
+        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
+        _CsvParser_setErrorMessage(csvParser, errMsg);
+        free(errMsg);
+        return NULL;
+      }
+    }
+  }
+  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
+  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
+  csvRow->numOfFields_ = 0;
+  int fieldIter = 0;
+  char *currField = (char *) malloc(acceptedCharsInField);
+  int inside_complex_field = 0;
+  int currFieldCharIter = 0;
+  int seriesOfQuotesLength = 0;
+  int lastCharIsQuote = 0;
+  int isEndOfFile = 0;
+  while (1) {
+    char currChar =
+        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
+    csvParser->csvStringIter_++;
+    int endOfFileIndicator;
+    if (csvParser->fromString_) {
+      endOfFileIndicator = (currChar == '\0');
+    } else {
+      endOfFileIndicator = feof(csvParser->fileHandler_);
+    }
+    if (endOfFileIndicator) {
+      if (csvParser->fromString_) {
+        // stay at the terminator, the next row is read from here
+        csvParser->csvStringIter_--;
+      }
+      if (currFieldCharIter == 0 && fieldIter == 0) {
+        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
+      currChar = '\n';
+      isEndOfFile = 1;
+    }
+    if (currChar == '\r') {
+      continue;
+    }
+    if (currFieldCharIter == 0 && !lastCharIsQuote) {
+      if (currChar == '\"') {
+        inside_complex_field = 1;
+        lastCharIsQuote = 1;
+        continue;
+      }
+    } else if (currChar == '\"') {
+      seriesOfQuotesLength++;
+      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
+      if (inside_complex_field) {
+        currFieldCharIter--;
+      }
+    } else {
+      seriesOfQuotesLength = 0;
+    }
+    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
+      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
+      strcpy(csvRow->fields_[fieldIter], currField);
+      free(currField);
+      csvRow->numOfFields_++;
+      if (currChar == '\n') {
+        return csvRow;
+      }
+      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
+        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
+        numRowRealloc++;
+      }
+      acceptedCharsInField = 64;
+      currField = (char *) malloc(acceptedCharsInField);
+      currFieldCharIter = 0;
+      fieldIter++;
+      inside_complex_field = 0;
+    } else {
+      currField[currFieldCharIter] = currChar;
+      currFieldCharIter++;
+      if (currFieldCharIter == acceptedCharsInField - 1) {
+        acceptedCharsInField *= 2;
+        currField = (char *) realloc(currField, acceptedCharsInField);
+      }
+    }
+    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
+  }
+}
+
+int _CsvParser_delimiterIsAccepted(const char *delimiter) {
+  char actualDelimiter = *delimiter;
+  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
+      actualDelimiter == '\"') {
+    return 0;
+  }
+  return 1;
+}
+
+void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  int errMsgLen = strlen(errorMessage);
+  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
+  strcpy(csvParser->errMsg_, errorMessage);
+}
+
+const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
+  return csvParser->errMsg_;
+}
+
+#ifdef __cplusplus
+}
+#endif
-- 
2.43.0


From 06998c1f839f4ef3897c476727e88aa729bd6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 21/38] fix: a quote that opens the last field of a text writes
 within the field

---
 src/csvparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 26575c8..ed0f132 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -188,7 +188,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       seriesOfQuotesLength = 0;
     }
     if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
       csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
       strcpy(csvRow->fields_[fieldIter], currField);
       free(currField);
-- 
2.43.0


From b090317a57628df82cb5b60e3367e0edc0e27089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 22/38] fix: the error message for a missing delimited file has
 room for its name

---
 src/csvparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index ed0f132..ecc0b15 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -126,7 +126,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       if (csvParser->fileHandler_ == NULL) {
         int errorNum = errno;
         const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        char *errMsg = (char *) malloc(1024 + strlen(csvParser->filePath_) + strlen(errStr));
         strcpy(errMsg, "");
         sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
         _CsvParser_setErrorMessage(csvParser, errMsg);
-- 
2.43.0


From b6247a42d51afc858ae85604282b2f9212bf81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 23/38] fix: the delimited-text reader ends at a read error

---
 src/csvparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index ecc0b15..2d80230 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -153,7 +153,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
     if (csvParser->fromString_) {
       endOfFileIndicator = (currChar == '\0');
     } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_);
+      endOfFileIndicator = feof(csvParser->fileHandler_) || ferror(csvParser->fileHandler_);
     }
     if (endOfFileIndicator) {
       if (csvParser->fromString_) {
-- 
2.43.0


From ddba964f462ccb9ba9718f1dac51ae7c57e0fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:35 +0000
Subject: [PATCH 24/38] fix: a missing CNF file is not taken for one without
 clauses

---
 src/cnf.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 731ad1b..652b5d3 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -4,7 +4,9 @@
 
 #include <cassert>
 #include <cmath>
+#include <cstdlib>
 #include <fstream>
+#include <iostream>
 #include <psdd/cnf.h>
 #include <psdd/psdd_unique_table.h>
 #include <queue>
@@ -42,6 +44,10 @@ SddNode *ConstructSddFromCnf(
 } // namespace
 CNF::CNF(const char *filename) {
   std::ifstream cnf_file(filename);
+  if (!cnf_file) {
+    std::cerr << "File " << filename << " cannot be open." << std::endl;
+    exit(1);
+  }
   std::string line;
   while (getline(cnf_file, line)) {
     if (line[0] == 'p') {
@@ -66,6 +72,10 @@ CNF::CNF(const char *filename) {
       clauses_.push_back(clause);
     }
   }
+  if (cnf_file.bad()) {
+    std::cerr << "File " << filename << " cannot be read." << std::endl;
+    exit(1);
+  }
   cnf_file.close();
 }
 const std::vector<std::vector<SddLiteral>> &CNF::clauses() const {
-- 
2.43.0


From acb0b82b1c27327a2018b47308df46a02a0e1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:35 +0000
Subject: [PATCH 25/38] fix: a missing data file is not taken for one without
 rows

---
 src/binary_data.cpp | 5 +++++
 src/csvparser.c     | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 9218d15..f4b24e5 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -44,6 +44,11 @@ void BinaryData::ReadFile(const char *data_file) {
     }
     CsvParser_destroy_row(row);
   }
+  if (csvparser->fileHandler_ == nullptr || ferror(csvparser->fileHandler_)) {
+    std::cerr << "Failed to load csv: " << CsvParser_getErrorMessage(csvparser)
+              << std::endl;
+    exit(1);
+  }
   CsvParser_destroy(csvparser);
 }
 void BinaryData::WriteFile(const char *data_file) {
diff --git a/src/csvparser.c b/src/csvparser.c
index 2d80230..9277f77 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -161,7 +161,8 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
         csvParser->csvStringIter_--;
       }
       if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
+        _CsvParser_setErrorMessage(csvParser, (!csvParser->fromString_ && ferror(csvParser->fileHandler_))
+                                                  ? "Error reading CSV file" : "Reached EOF");
         free(currField);
         CsvParser_destroy_row(csvRow);
         return NULL;
-- 
2.43.0


From 20da0dd4cc9576a385a044df7aaaa4ab1671d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:51 +0000
Subject: [PATCH 26/38] fix: a PSDD file that cannot be read is not taken for
 an empty one

---
 src/psdd_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 23584e3..5cea7e3 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -705,6 +705,10 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
     num_constructed ++;
     std::cout << "\rConstructed " << num_constructed << "Remaining " << psdd_size - num_constructed; 
   }
+  if (psdd_file.bad()) {
+    std::cerr << "File " << psdd_filename << " cannot be read." << std::endl;
+    exit(1);  // terminate with error
+  }
   psdd_file.close();
   std::cout << std::endl;
   return root_node;
-- 
2.43.0


From 50d384e1ef510b2f5b4f127902d70af79d7f2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:51 +0000
Subject: [PATCH 27/38] fix: JSON datasets with fields of the wrong type yield
 no dataset

---
 src/binary_data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index f4b24e5..558d27b 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -109,6 +109,10 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
     return nullptr;
   }
   auto variable_size = data_input_json["variable_size"];
+  if (!variable_size.is_number_integer() || variable_size < 0) {
+    std::cerr << "variable_size is not a number in the json input" << std::endl;
+    return nullptr;
+  }
   if (data_input_json.find("data") == data_input_json.end()) {
     std::cerr << "Cannot find \"data\" field in the json input" << std::endl;
     return nullptr;
@@ -116,6 +120,7 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
   const auto &data = data_input_json["data"];
   if (!data.is_array()) {
     std::cerr << "data is not an array in the json input" << std::endl;
+    return nullptr;
   }
   auto new_dataset = new BinaryData();
   new_dataset->set_variable_size((uint32_t)variable_size);
-- 
2.43.0


From eec33db5024fb7ce5bcb66152409c74bee769128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:51 +0000
Subject: [PATCH 28/38] fix: JSON examples with variable numbers below one or
 fractions are skipped

---
 src/binary_data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 558d27b..306a29e 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -139,8 +139,8 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
     for (auto positive_variable_it = cur_example.begin();
          positive_variable_it != cur_example.end(); ++positive_variable_it) {
       const auto &cur_variable = *positive_variable_it;
-      if (cur_variable.is_number()) {
-        if (cur_variable <= variable_size) {
+      if (cur_variable.is_number_integer()) {
+        if (cur_variable >= 1 && cur_variable <= variable_size) {
           cur_example_bitset.set(cur_variable);
         } else {
           legal_data = false;
-- 
2.43.0


From 13b6165a9abb9f798066037595baf55e45ab7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:51 +0000
Subject: [PATCH 29/38] fix: JSON examples are numbered by their position

---
 src/binary_data.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 306a29e..a52597f 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -125,7 +125,7 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
   auto new_dataset = new BinaryData();
   new_dataset->set_variable_size((uint32_t)variable_size);
   size_t iteration_index = 0;
-  for (auto it = data.begin(); it != data.end(); ++it) {
+  for (auto it = data.begin(); it != data.end(); ++it, ++iteration_index) {
     const auto &cur_example = *it;
     if (!cur_example.is_array()) {
       std::cerr << "The " << iteration_index
@@ -159,7 +159,6 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
       continue;
     }
     new_dataset->AddRecord(cur_example_bitset);
-    iteration_index += 1;
   }
   data_input_stream.close();
   return new_dataset;
-- 
2.43.0


From d597be3f47bd7f3786af6dfeb41e8c1370a709b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 30/38] fix: a network file that ends early does not hang the
 reader

---
 src/uai_network.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index a7b7dd1..04c0f12 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -5,6 +5,7 @@
 #include "psdd/uai_network.h"
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -55,9 +56,13 @@ void UaiNetwork::read_file(const char* uai_file) {
   }
   for (int i = 0; i < m_factor_size; i++) {
     getline(uaifs, string_buf);
-    while (string_buf == "") {
+    while (uaifs && string_buf == "") {
       getline(uaifs, string_buf);
     }
+    if (!uaifs) {
+      std::cerr << "factor file " << uai_file << " ends early." << std::endl;
+      exit(1);
+    }
     size_t entry_cnt;
     std::istringstream iss(string_buf);
     iss >> entry_cnt;
@@ -68,7 +73,10 @@ void UaiNetwork::read_file(const char* uai_file) {
       param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
     }
     while (param_list.size() < entry_cnt) {
-      getline(uaifs, string_buf);
+      if (!getline(uaifs, string_buf)) {
+        std::cerr << "factor file " << uai_file << " ends early." << std::endl;
+        exit(1);
+      }
       iss.str(string_buf);
       iss.clear();
       while (iss >> cur_entry) {
-- 
2.43.0


From abfd472fa0f10b8c8088e8b693b4fcaaa8ec59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:24 +0000
Subject: [PATCH 31/38] fix: csvparser.c keeps its CRLF line ends

---
 src/csvparser.c | 490 ++++++++++++++++++++++++------------------------
 1 file changed, 245 insertions(+), 245 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 9277f77..f071bd7 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -1,245 +1,245 @@
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <errno.h>
-
-#include <psdd/csvparser.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
-  if (filePath == NULL) {
-    csvParser->filePath_ = NULL;
-  } else {
-    int filePathLen = strlen(filePath);
-    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
-    strcpy(csvParser->filePath_, filePath);
-  }
-  csvParser->firstLineIsHeader_ = firstLineIsHeader;
-  csvParser->errMsg_ = NULL;
-  if (delimiter == NULL) {
-    csvParser->delimiter_ = ',';
-  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
-    csvParser->delimiter_ = *delimiter;
-  } else {
-    csvParser->delimiter_ = '\0';
-  }
-  csvParser->header_ = NULL;
-  csvParser->fileHandler_ = NULL;
-  csvParser->fromString_ = 0;
-  csvParser->csvString_ = NULL;
-  csvParser->csvStringIter_ = 0;
-
-  return csvParser;
-}
-
-CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
-  csvParser->fromString_ = 1;
-  if (csvString != NULL) {
-    int csvStringLen = strlen(csvString);
-    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
-    strcpy(csvParser->csvString_, csvString);
-  }
-  return csvParser;
-}
-
-void CsvParser_destroy(CsvParser *csvParser) {
-  if (csvParser == NULL) {
-    return;
-  }
-  if (csvParser->filePath_ != NULL) {
-    free(csvParser->filePath_);
-  }
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  if (csvParser->fileHandler_ != NULL) {
-    fclose(csvParser->fileHandler_);
-  }
-  if (csvParser->header_ != NULL) {
-    CsvParser_destroy_row(csvParser->header_);
-  }
-  if (csvParser->csvString_ != NULL) {
-    free(csvParser->csvString_);
-  }
-  free(csvParser);
-}
-
-void CsvParser_destroy_row(CsvRow *csvRow) {
-  int i;
-  for (i = 0; i < csvRow->numOfFields_; i++) {
-    free(csvRow->fields_[i]);
-  }
-  free(csvRow->fields_);
-  free(csvRow);
-}
-
-const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
-  if (!csvParser->firstLineIsHeader_) {
-    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
-    return NULL;
-  }
-  if (csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return csvParser->header_;
-}
-
-CsvRow *CsvParser_getRow(CsvParser *csvParser) {
-  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return _CsvParser_getRow(csvParser);
-}
-
-int CsvParser_getNumFields(const CsvRow *csvRow) {
-  return csvRow->numOfFields_;
-}
-
-const char **CsvParser_getFields(const CsvRow *csvRow) {
-  return (const char **) csvRow->fields_;
-}
-
-CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
-  int numRowRealloc = 0;
-  int acceptedFields = 64;
-  int acceptedCharsInField = 64;
-  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
-    return NULL;
-  }
-  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
-    return NULL;
-  }
-  if (csvParser->delimiter_ == '\0') {
-    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
-    return NULL;
-  }
-  if (!csvParser->fromString_) {
-    if (csvParser->fileHandler_ == NULL) {
-      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
-      if (csvParser->fileHandler_ == NULL) {
-        int errorNum = errno;
-        const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(csvParser->filePath_) + strlen(errStr));
-        strcpy(errMsg, "");
-        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
-        _CsvParser_setErrorMessage(csvParser, errMsg);
-        free(errMsg);
-        return NULL;
-      }
-    }
-  }
-  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
-  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
-  csvRow->numOfFields_ = 0;
-  int fieldIter = 0;
-  char *currField = (char *) malloc(acceptedCharsInField);
-  int inside_complex_field = 0;
-  int currFieldCharIter = 0;
-  int seriesOfQuotesLength = 0;
-  int lastCharIsQuote = 0;
-  int isEndOfFile = 0;
-  while (1) {
-    char currChar =
-        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
-    int endOfFileIndicator;
-    if (csvParser->fromString_) {
-      endOfFileIndicator = (currChar == '\0');
-    } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_) || ferror(csvParser->fileHandler_);
-    }
-    if (endOfFileIndicator) {
-      if (csvParser->fromString_) {
-        // stay at the terminator, the next row is read from here
-        csvParser->csvStringIter_--;
-      }
-      if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, (!csvParser->fromString_ && ferror(csvParser->fileHandler_))
-                                                  ? "Error reading CSV file" : "Reached EOF");
-        free(currField);
-        CsvParser_destroy_row(csvRow);
-        return NULL;
-      }
-      currChar = '\n';
-      isEndOfFile = 1;
-    }
-    if (currChar == '\r') {
-      continue;
-    }
-    if (currFieldCharIter == 0 && !lastCharIsQuote) {
-      if (currChar == '\"') {
-        inside_complex_field = 1;
-        lastCharIsQuote = 1;
-        continue;
-      }
-    } else if (currChar == '\"') {
-      seriesOfQuotesLength++;
-      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
-      if (inside_complex_field) {
-        currFieldCharIter--;
-      }
-    } else {
-      seriesOfQuotesLength = 0;
-    }
-    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
-      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
-      strcpy(csvRow->fields_[fieldIter], currField);
-      free(currField);
-      csvRow->numOfFields_++;
-      if (currChar == '\n') {
-        return csvRow;
-      }
-      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
-        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
-        numRowRealloc++;
-      }
-      acceptedCharsInField = 64;
-      currField = (char *) malloc(acceptedCharsInField);
-      currFieldCharIter = 0;
-      fieldIter++;
-      inside_complex_field = 0;
-    } else {
-      currField[currFieldCharIter] = currChar;
-      currFieldCharIter++;
-      if (currFieldCharIter == acceptedCharsInField - 1) {
-        acceptedCharsInField *= 2;
-        currField = (char *) realloc(currField, acceptedCharsInField);
-      }
-    }
-    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
-  }
-}
-
-int _CsvParser_delimiterIsAccepted(const char *delimiter) {
-  char actualDelimiter = *delimiter;
-  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
-      actualDelimiter == '\"') {
-    return 0;
-  }
-  return 1;
-}
-
-void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  int errMsgLen = strlen(errorMessage);
-  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
-  strcpy(csvParser->errMsg_, errorMessage);
-}
-
-const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
-  return csvParser->errMsg_;
-}
-
-#ifdef __cplusplus
-}
-#endif
+#include <stdlib.h>
+#include <string.h>
+#include <stdio.h>
+#include <errno.h>
+
+#include <psdd/csvparser.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
+  if (filePath == NULL) {
+    csvParser->filePath_ = NULL;
+  } else {
+    int filePathLen = strlen(filePath);
+    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
+    strcpy(csvParser->filePath_, filePath);
+  }
+  csvParser->firstLineIsHeader_ = firstLineIsHeader;
+  csvParser->errMsg_ = NULL;
+  if (delimiter == NULL) {
+    csvParser->delimiter_ = ',';
+  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
+    csvParser->delimiter_ = *delimiter;
+  } else {
+    csvParser->delimiter_ = '\0';
+  }
+  csvParser->header_ = NULL;
+  csvParser->fileHandler_ = NULL;
+  csvParser->fromString_ = 0;
+  csvParser->csvString_ = NULL;
+  csvParser->csvStringIter_ = 0;
+
+  return csvParser;
+}
+
+CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
+  csvParser->fromString_ = 1;
+  if (csvString != NULL) {
+    int csvStringLen = strlen(csvString);
+    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
+    strcpy(csvParser->csvString_, csvString);
+  }
+  return csvParser;
+}
+
+void CsvParser_destroy(CsvParser *csvParser) {
+  if (csvParser == NULL) {
+    return;
+  }
+  if (csvParser->filePath_ != NULL) {
+    free(csvParser->filePath_);
+  }
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  if (csvParser->fileHandler_ != NULL) {
+    fclose(csvParser->fileHandler_);
+  }
+  if (csvParser->header_ != NULL) {
+    CsvParser_destroy_row(csvParser->header_);
+  }
+  if (csvParser->csvString_ != NULL) {
+    free(csvParser->csvString_);
+  }
+  free(csvParser);
+}
+
+void CsvParser_destroy_row(CsvRow *csvRow) {
+  int i;
+  for (i = 0; i < csvRow->numOfFields_; i++) {
+    free(csvRow->fields_[i]);
+  }
+  free(csvRow->fields_);
+  free(csvRow);
+}
+
+const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
+  if (!csvParser->firstLineIsHeader_) {
+    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
+    return NULL;
+  }
+  if (csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return csvParser->header_;
+}
+
+CsvRow *CsvParser_getRow(CsvParser *csvParser) {
+  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return _CsvParser_getRow(csvParser);
+}
+
+int CsvParser_getNumFields(const CsvRow *csvRow) {
+  return csvRow->numOfFields_;
+}
+
+const char **CsvParser_getFields(const CsvRow *csvRow) {
+  return (const char **) csvRow->fields_;
+}
+
+CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
+  int numRowRealloc = 0;
+  int acceptedFields = 64;
+  int acceptedCharsInField = 64;
+  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
+    return NULL;
+  }
+  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
+    return NULL;
+  }
+  if (csvParser->delimiter_ == '\0') {
+    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
+    return NULL;
+  }
+  if (!csvParser->fromString_) {
+    if (csvParser->fileHandler_ == NULL) {
+      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
+      if (csvParser->fileHandler_ == NULL) {
+        int errorNum = errno;
+        const char *errStr = strerror(errorNum);
+        char *errMsg = (char *) malloc(1024 + strlen(csvParser->filePath_) + strlen(errStr));
+        strcpy(errMsg, "");
+        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
+        _CsvParser_setErrorMessage(csvParser, errMsg);
+        free(errMsg);
+        return NULL;
+      }
+    }
+  }
+  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
+  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
+  csvRow->numOfFields_ = 0;
+  int fieldIter = 0;
+  char *currField = (char *) malloc(acceptedCharsInField);
+  int inside_complex_field = 0;
+  int currFieldCharIter = 0;
+  int seriesOfQuotesLength = 0;
+  int lastCharIsQuote = 0;
+  int isEndOfFile = 0;
+  while (1) {
+    char currChar =
+        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
+    csvParser->csvStringIter_++;
+    int endOfFileIndicator;
+    if (csvParser->fromString_) {
+      endOfFileIndicator = (currChar == '\0');
+    } else {
+      endOfFileIndicator = feof(csvParser->fileHandler_) || ferror(csvParser->fileHandler_);
+    }
+    if (endOfFileIndicator) {
+      if (csvParser->fromString_) {
+        // stay at the terminator, the next row is read from here
+        csvParser->csvStringIter_--;
+      }
+      if (currFieldCharIter == 0 && fieldIter == 0) {
+        _CsvParser_setErrorMessage(csvParser, (!csvParser->fromString_ && ferror(csvParser->fileHandler_))
+                                                  ? "Error reading CSV file" : "Reached EOF");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
+      currChar = '\n';
+      isEndOfFile = 1;
+    }
+    if (currChar == '\r') {
+      continue;
+    }
+    if (currFieldCharIter == 0 && !lastCharIsQuote) {
+      if (currChar == '\"') {
+        inside_complex_field = 1;
+        lastCharIsQuote = 1;
+        continue;
+      }
+    } else if (currChar == '\"') {
+      seriesOfQuotesLength++;
+      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
+      if (inside_complex_field) {
+        currFieldCharIter--;
+      }
+    } else {
+      seriesOfQuotesLength = 0;
+    }
+    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
+      strcpy(csvRow->fields_[fieldIter], currField);
+      free(currField);
+      csvRow->numOfFields_++;
+      if (currChar == '\n') {
+        return csvRow;
+      }
+      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
+        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
+        numRowRealloc++;
+      }
+      acceptedCharsInField = 64;
+      currField = (char *) malloc(acceptedCharsInField);
+      currFieldCharIter = 0;
+      fieldIter++;
+      inside_complex_field = 0;
+    } else {
+      currField[currFieldCharIter] = currChar;
+      currFieldCharIter++;
+      if (currFieldCharIter == acceptedCharsInField - 1) {
+        acceptedCharsInField *= 2;
+        currField = (char *) realloc(currField, acceptedCharsInField);
+      }
+    }
+    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
+  }
+}
+
+int _CsvParser_delimiterIsAccepted(const char *delimiter) {
+  char actualDelimiter = *delimiter;
+  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
+      actualDelimiter == '\"') {
+    return 0;
+  }
+  return 1;
+}
+
+void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  int errMsgLen = strlen(errorMessage);
+  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
+  strcpy(csvParser->errMsg_, errorMessage);
+}
+
+const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
+  return csvParser->errMsg_;
+}
+
+#ifdef __cplusplus
+}
+#endif
-- 
2.43.0


From 41c170bca28ecb1acc00fe39cf4b71a1c614e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:39 +0000
Subject: [PATCH 32/38] fix: keep the nodes of a conversion to an SDD
 referenced while it runs

An SDD manager with automatic collection and minimisation could free the
nodes the conversion still needed, which ended the program.
---
 src/psdd_node.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index ac15eb6..0e85776 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -231,10 +231,16 @@ SddNode *ConvertPsddNodeToSddNode(
       for (size_t i = 0; i < element_size; ++i) {
         PsddNode *cur_prime = decn_primes[i];
         PsddNode *cur_sub = decn_subs[i];
-        SddNode *cur_partition =
+        // an automatic sdd manager may collect nodes that are not referenced
+        SddNode *cur_partition = sdd_ref(
             sdd_conjoin((SddNode *)cur_prime->user_data(),
-                        (SddNode *)cur_sub->user_data(), sdd_manager);
-        cur_logic = sdd_disjoin(cur_logic, cur_partition, sdd_manager);
+                        (SddNode *)cur_sub->user_data(), sdd_manager),
+            sdd_manager);
+        SddNode *new_logic = sdd_ref(
+            sdd_disjoin(cur_logic, cur_partition, sdd_manager), sdd_manager);
+        sdd_deref(cur_partition, sdd_manager);
+        sdd_deref(cur_logic, sdd_manager);
+        cur_logic = new_logic;
       }
       cur_node->SetUserData((uintmax_t)cur_logic);
     } else {
@@ -244,6 +250,9 @@ SddNode *ConvertPsddNodeToSddNode(
   }
   auto root_logic = (SddNode *)serialized_psdd_nodes[0]->user_data();
   for (PsddNode *cur_node : serialized_psdd_nodes) {
+    if (cur_node->node_type() == DECISION_NODE_TYPE) {
+      sdd_deref((SddNode *)cur_node->user_data(), sdd_manager);
+    }
     cur_node->SetUserData(0);
   }
   return root_logic;
-- 
2.43.0


From a69a768b926b8e0ed68d65fa5037480bb6389a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:39 +0000
Subject: [PATCH 33/38] fix: marks of an earlier call do not leak into
 SetActivationFlag and IsConsistent

SetActivationFlag leaves its marks on the nodes, and neither it nor
IsConsistent cleared them first, so a later call saw nodes of another
assignment as active.
---
 src/psdd_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 0e85776..8fa65ea 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -358,6 +358,8 @@ void SetActivationFlag(const std::bitset<MAX_VAR> &evidence,
   for (auto node_it = serialized_psdd_nodes.rbegin();
        node_it != serialized_psdd_nodes.rend(); ++node_it) {
     PsddNode *cur_node = *node_it;
+    // forget what an earlier call has left
+    cur_node->ResetActivationFlag();
     if (cur_node->node_type() == LITERAL_NODE_TYPE) {
       // literal
       auto cur_literal_node = cur_node->psdd_literal_node();
@@ -569,6 +571,8 @@ bool IsConsistent(const std::vector<PsddNode *> &nodes,
                   const std::bitset<MAX_VAR> &partial_instantiation) {
   for (auto node_it = nodes.rbegin(); node_it != nodes.rend(); ++node_it) {
     PsddNode *cur_node = *node_it;
+    // forget what an earlier call has left
+    cur_node->ResetActivationFlag();
     if (cur_node->node_type() == LITERAL_NODE_TYPE) {
       if (variable_mask[cur_node->psdd_literal_node()->variable_index()]) {
         if (partial_instantiation[cur_node->psdd_literal_node()
-- 
2.43.0


From a6594d55684aba639fd24bb42341017f7a4ca044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:39 +0000
Subject: [PATCH 34/38] fix: networks with constant factors or without factors
 can be compiled

---
 src/hypergraph_decomposition_vtree.cpp | 14 ++++++++++---
 src/pgm_compiler.cpp                   | 28 ++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index d0b35ce..3db2208 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -255,12 +255,19 @@ Vtree* HypergraphDecompositionVtree::ConstructVtree() {
       network_->factor_scopes();
   std::vector<std::vector<SddLiteral>> factor_scope_cpy;
   for (const auto& cur_factor_scope : factor_scopes) {
+    if (cur_factor_scope.empty()) {
+      // constant factors do not affect the vtree
+      continue;
+    }
     std::vector<SddLiteral> t(cur_factor_scope.begin(), cur_factor_scope.end());
     factor_scope_cpy.emplace_back(std::move(t));
   }
-  Vtree* v = BaseCase(factor_scope_cpy);
+  Vtree* v = nullptr;
+  if (!factor_scope_cpy.empty()) {
+    v = BaseCase(factor_scope_cpy);
+  }
   auto start = std::chrono::steady_clock::now();
-  if (v == nullptr) {
+  if (v == nullptr && !factor_scope_cpy.empty()) {
     v = FactorGraphToVtree(context, std::move(factor_scope_cpy));
     set_vtree_properties(v);
   }
@@ -277,7 +284,8 @@ Vtree* HypergraphDecompositionVtree::ConstructVtree() {
   }
   for (size_t i = 1; i <= network_->var_size(); ++i) {
     if (factor_variables.find(i) == factor_variables.end()) {
-      v = new_internal_vtree(new_leaf_vtree(i), v);
+      Vtree* leaf = new_leaf_vtree(i);
+      v = v == nullptr ? leaf : new_internal_vtree(leaf, v);
     }
   }
   set_vtree_properties(v);
diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index 3030000..49eb255 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -126,6 +126,18 @@ std::pair<PsddNode*, PsddParameter> CompileContext(PsddManager* manager,
                                                 /*flag_index*/ 0),
           new_norm};
 }
+
+// The distribution over all variables that is proportional to a constant, and
+// its normalizing constant.
+std::pair<PsddNode*, PsddParameter> CompileConstant(PsddManager* manager,
+                                                    PsddParameter constant) {
+  if (constant == PsddParameter::CreateFromDecimal(0)) {
+    return {nullptr, constant};
+  }
+  PsddNode* true_node = manager->GetTrueNode(manager->vtree(), /*flag_index*/ 0);
+  auto result = manager->Multiply(true_node, true_node, /*flag_index*/ 0);
+  return {result.first, constant * result.second};
+}
 }  // namespace
 
 PgmCompiler::PgmCompiler(std::string working_dir)
@@ -135,6 +147,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
     size_t factor_index) {
   const std::vector<size_t>& factor_scope =
       m_network->factor_scopes()[factor_index];
+  if (factor_scope.empty()) {
+    return CompileConstant(m_pm, m_network->params()[factor_index][0]);
+  }
   FactorTable table{m_network->params()[factor_index], {}};
   // the last variable of the scope is the LSB of the index
   for (size_t i = 0; i < factor_scope.size(); ++i) {
@@ -177,6 +192,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
   PsddParameter z = PsddParameter::CreateFromDecimal(1);
   std::cout << "Start Loading factors" << std::endl;
   auto factor_size = m_network->factor_size();
+  if (factor_size == 0) {
+    return CompileConstant(m_pm, PsddParameter::CreateFromDecimal(1));
+  }
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
     if (compiled_cluster.first == nullptr) {
@@ -195,6 +213,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
         }
       }
     }
+    if (attached_vnode == nullptr) {
+      // The factor is a constant.
+      attached_vnode = m_pm->vtree();
+    }
     if (psdds_at_vtree.find(sdd_vtree_position(attached_vnode)) ==
         psdds_at_vtree.end()) {
       psdds_at_vtree[sdd_vtree_position(attached_vnode)] = {nodes.back()};
@@ -281,6 +303,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
   PsddParameter z = PsddParameter::CreateFromDecimal(1);
   std::cout << "Start Loading factors" << std::endl;
   auto factor_size = m_network->factor_size();
+  if (factor_size == 0) {
+    return CompileConstant(m_pm, PsddParameter::CreateFromDecimal(1));
+  }
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
     if (compiled_cluster.first == nullptr) {
@@ -348,6 +373,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
   PsddParameter z = PsddParameter::CreateFromDecimal(1);
   std::cout << "Start Loading factors" << std::endl;
   auto factor_size = m_network->factor_size();
+  if (factor_size == 0) {
+    return CompileConstant(m_pm, PsddParameter::CreateFromDecimal(1));
+  }
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
     if (compiled_cluster.first == nullptr) {
-- 
2.43.0


From 69effcbbc6fe273dcba1419aa1448b802141a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:39 +0000
Subject: [PATCH 35/38] fix: reading a network replaces the factors of the one
 before

---
 src/uai_network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index 04c0f12..ecfab50 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -42,6 +42,8 @@ void UaiNetwork::read_file(const char* uai_file) {
   getline(uaifs, string_buf);
   int factor_num = stoi(string_buf);
   m_factor_size = (size_t)factor_num;
+  m_clusters.clear();
+  m_params.clear();
   for (int i = 0; i < m_factor_size; i++) {
     std::vector<size_t> order_list;
     getline(uaifs, string_buf);
-- 
2.43.0


From cb585f0aa273960c1cca1215c7e3286caead7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:24 +0000
Subject: [PATCH 36/38] fix: IsConsistent for a map visits each shared node
 once

---
 src/psdd_node.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 8fa65ea..767f1d2 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -56,6 +56,31 @@ void LeftToRightLeafTraverseHelper(std::vector<SddLiteral> *literal_vector,
     LeftToRightLeafTraverseHelper(literal_vector, sdd_vtree_right(cur_root));
   }
 }
+
+// results holds the answers of the decision nodes visited so far, because they
+// can be reached in many ways.
+bool IsConsistentHelper(
+    PsddNode *node,
+    const std::unordered_map<uint32_t, bool> &partial_instantiation,
+    std::unordered_map<PsddNode *, bool> *results) {
+  if (node->node_type() != DECISION_NODE_TYPE) {
+    return node->IsConsistent(partial_instantiation);
+  }
+  auto result_it = results->find(node);
+  if (result_it != results->end()) {
+    return result_it->second;
+  }
+  const auto &primes = node->psdd_decision_node()->primes();
+  const auto &subs = node->psdd_decision_node()->subs();
+  auto element_size = primes.size();
+  bool result = false;
+  for (size_t i = 0; i < element_size && !result; i++) {
+    result = IsConsistentHelper(primes[i], partial_instantiation, results) &&
+             IsConsistentHelper(subs[i], partial_instantiation, results);
+  }
+  (*results)[node] = result;
+  return result;
+}
 } // namespace
 
 namespace vtree_util {
@@ -921,12 +946,13 @@ int PsddDecisionNode::node_type() const { return 2; }
 
 bool PsddDecisionNode::IsConsistent(
     const std::unordered_map<uint32_t, bool> &partial_instantiation) const {
+  std::unordered_map<PsddNode *, bool> results;
   auto element_size = primes_.size();
   for (size_t i = 0; i < element_size; i++) {
     PsddNode *cur_prime = primes_[i];
     PsddNode *cur_sub = subs_[i];
-    if (cur_prime->IsConsistent(partial_instantiation) &&
-        cur_sub->IsConsistent(partial_instantiation)) {
+    if (IsConsistentHelper(cur_prime, partial_instantiation, &results) &&
+        IsConsistentHelper(cur_sub, partial_instantiation, &results)) {
       return true;
     }
   }
-- 
2.43.0


From 8bc768cead7542e4b97f5286a44dad56ab1e43cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:46 +0000
Subject: [PATCH 37/38] fix: the hash of a decision with more than 64 elements
 is defined

---
 src/psdd_node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 767f1d2..7d8f850 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -973,9 +973,9 @@ void PsddDecisionNode::CalculateHashValue() {
   std::size_t hash_value = std::hash<uintmax_t>{}(flag_index());
   auto element_size = primes_.size();
   for (size_t i = 0; i < element_size; i++) {
-    hash_value ^= (std::hash<uintmax_t>{}(primes_[i]->node_index()) << i);
-    hash_value ^= (std::hash<uintmax_t>{}(subs_[i]->node_index()) << i);
-    hash_value ^= (parameters_[i].hash_value() << i);
+    hash_value ^= (std::hash<uintmax_t>{}(primes_[i]->node_index()) << (i % 64));
+    hash_value ^= (std::hash<uintmax_t>{}(subs_[i]->node_index()) << (i % 64));
+    hash_value ^= (parameters_[i].hash_value() << (i % 64));
   }
   set_hash_value(hash_value);
 }
-- 
2.43.0


From bfd09dfd9a90613081925c73cf9c29c813e22d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:22 +0000
Subject: [PATCH 38/38] fix: the integer form of a parameter is defined for
 every value

It is made from the logarithm, which is negative or minus infinity for most
parameters, and the conversion of such a value to an unsigned integer is
undefined.
---
 src/psdd_parameter.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index 260c7b8..ee84755 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -8,11 +8,27 @@
 
 #define APPX_LEVEL 7
 
+namespace {
+// The conversion to an integer is only defined for values that fit into it.
+uintmax_t ScaledParameter(double parameter) {
+  double scaled = parameter * std::pow(10, APPX_LEVEL);
+  double limit = std::ldexp(1.0, std::numeric_limits<intmax_t>::digits);
+  intmax_t result;
+  if (scaled >= limit) {
+    result = std::numeric_limits<intmax_t>::max();
+  } else if (scaled > -limit) {
+    result = static_cast<intmax_t>(scaled);
+  } else {
+    result = std::numeric_limits<intmax_t>::min();
+  }
+  return static_cast<uintmax_t>(result);
+}
+} // namespace
+
 PsddParameter::PsddParameter() : PsddParameter(std::log(0)) {}
 
 PsddParameter::PsddParameter(double parameter)
-    : parameter_(parameter), hash_value_(static_cast<uintmax_t>(
-                                 parameter * std::pow(10, APPX_LEVEL))) {}
+    : parameter_(parameter), hash_value_(ScaledParameter(parameter)) {}
 
 PsddParameter PsddParameter::CreateFromDecimal(double num) {
   return PsddParameter(std::log(num));
-- 
2.43.0

