From 0aa96c3798845549c4267cac8e57b78988557e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:42 +0000
Subject: [PATCH 01/20] fix: predict the majority class of a decision tree node

The constructor moved its count_per_class parameter into the member and then
searched the moved-from parameter for the maximum, so every node predicted the
first class whatever its samples were.
---
 src/models/impl/DecisionTreeImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f93c514..2c8af5f 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -239,9 +239,10 @@ DecisionTreeImpl::Node::Node(DecisionTreeImpl &DT,
 {
   // Find predicted class as the maximum element in the
   // count_per_class.
-  int idx = std::distance(count_per_class.begin(),
-                          std::max_element(count_per_class.begin(),
-                                           count_per_class.end()));
+  // Use the member: the parameter of the same name has been moved from.
+  int idx = std::distance(this->count_per_class.begin(),
+                          std::max_element(this->count_per_class.begin(),
+                                           this->count_per_class.end()));
   predicted_class = *std::next(DT.classes.begin(), idx);
 }
 
-- 
2.43.0


From 96a5ee3a3d2210f5eb227ee23c18f9aba4f54808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:42 +0000
Subject: [PATCH 02/20] fix: keep a split threshold between the values it
 separates

The float midpoint of two adjacent values can round to the left one, and the
sum of two large values overflows to infinity; evaluation then sent samples to
the wrong subtree.
---
 src/models/impl/DecisionTreeImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 2c8af5f..5cbab0f 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -357,6 +357,11 @@ std::tuple<float, Iterator, size_t, float> DecisionTreeImpl::split(
       split_it = It;
       split_feature_idx = feature_idx;
       split_threshold = (feature_val_left + feature_val_right) / 2.0;
+      // The midpoint may round to the left value or overflow, use the right
+      // value to separate the samples like the split does.
+      if (!(feature_val_left < split_threshold &&
+            split_threshold <= feature_val_right))
+        split_threshold = feature_val_right;
     }
   }
 
-- 
2.43.0


From 91c36444490c6c36208f6e06ebb1adba9fc2a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:42 +0000
Subject: [PATCH 03/20] fix: separate stored dataset features so that they load

Features were written as "1,2," without spaces, which the whitespace-separated
parser rejects for more than one feature.
---
 src/Dataset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 045f92a..5588c46 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -101,8 +101,8 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
     for (auto &f : features)
-      os << float(f) << ",";
-    os << " ], ";
+      os << float(f) << ", ";
+    os << "], ";
     os << "policy: " << policy << ", ";
     os << "xtime: " << metric;
     os << " },\n";
-- 
2.43.0


From fb8c4da930196e992a90147d314caac1d2423270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:42 +0000
Subject: [PATCH 04/20] fix: store datasets with round-trip precision

Features and metrics were written with 6 significant digits, so a persisted
dataset did not reproduce the measurements.
---
 src/Dataset.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 5588c46..ec69417 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -5,6 +5,8 @@
 
 #include "apollo/Dataset.h"
 
+#include <limits>
+
 #include "helpers/Parser.h"
 
 size_t Apollo::Dataset::size() { return data.size(); }
@@ -93,6 +95,9 @@ void Apollo::Dataset::findMinMetricPolicyByFeatures(
 
 void Apollo::Dataset::store(std::ostream &os)
 {
+  // Use enough digits to reproduce features and metrics when loading.
+  const auto precision =
+      os.precision(std::numeric_limits<double>::max_digits10);
   os << "data: {\n";
   int idx = 0;
   for (auto &d : data) {
@@ -109,6 +114,7 @@ void Apollo::Dataset::store(std::ostream &os)
     ++idx;
   }
   os << "}\n";
+  os.precision(precision);
 }
 
 void Apollo::Dataset::load(std::istream &is)
-- 
2.43.0


From 89e27c254c604bc1d686180924cc64edf1c85d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:42 +0000
Subject: [PATCH 05/20] fix: store decision trees and forests with round-trip
 precision

Thresholds were written with 6 significant digits, so a loaded tree could
select a different policy than the stored one.
---
 src/models/impl/DecisionTreeImpl.cpp | 3 +++
 src/models/impl/RandomForestImpl.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 5cbab0f..83c265f 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <cstdio>
 #include <iostream>
+#include <limits>
 #include <set>
 #include <sstream>
 #include <string>
@@ -182,6 +183,8 @@ DecisionTreeImpl::~DecisionTreeImpl()
 void DecisionTreeImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Use enough digits to reproduce thresholds and data when loading.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# DecisionTreeImpl\n";
   output_tree(outfmt, "tree");
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index f5fd20f..5921a6c 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <chrono>
 #include <iostream>
+#include <limits>
 #include <random>
 #include <string>
 #include <vector>
@@ -103,6 +104,8 @@ void RandomForestImpl::output_rfc(OutputFormatter &outfmt)
 void RandomForestImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Use enough digits to reproduce thresholds and data when loading.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# RandomForestImpl\n";
   output_rfc(outfmt);
-- 
2.43.0


From bff6b626e16d48984734cd70033cfd5e1e32ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:42 +0000
Subject: [PATCH 06/20] fix: replace the trees of a random forest on training
 and loading

Training again or loading over an existing forest appended trees, mixing the
votes of the old model into the new one.
---
 src/models/impl/RandomForestImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index 5921a6c..06d31b7 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -35,6 +35,8 @@ void RandomForestImpl::train(std::vector<std::vector<float>> &features,
   std::mt19937 generator;
   std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);
 
+  // Replace any existing trees.
+  rfc.clear();
   for (unsigned i = 0; i < num_trees; i++) {
     std::vector<std::vector<float>> sample_features;
     std::vector<int> sample_responses;
@@ -155,6 +157,8 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
   parser.getNextToken();
   parser.parseExpected("[");
 
+  // Replace any existing trees.
+  rfc.clear();
   for (int i = 0; i < num_trees; ++i) {
     rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));
     parser.getNextToken();
-- 
2.43.0


From 01838d79010f947c0c40d8d4065a700ac1fd12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:42 +0000
Subject: [PATCH 07/20] fix: replace classes and data of a decision tree on
 training and loading

Loading over an existing tree kept the old classes and data, so the per-class
counts of the loaded nodes no longer matched the classes and storing the model
read past their end.
---
 src/models/impl/DecisionTreeImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 83c265f..408c7ae 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -57,6 +57,7 @@ void DecisionTreeImpl::train(std::vector<std::vector<float>> &features,
 {
   // Assumes all feature vectors are of equal size.
   num_features = features.begin()->size();
+  classes.clear();
   classes.insert(responses.begin(), responses.end());
   data.clear();
   for (size_t i = 0, end = features.size(); i < end; ++i)
@@ -508,6 +509,7 @@ void DecisionTreeImpl::parse_data(Parser &parser)
   parser.getNextToken();
   parser.parseExpected("{");
 
+  data.clear();
   while (!parser.getNextTokenEquals("},")) {
     parser.getNextToken();
     parser.parseExpected("{");
@@ -620,6 +622,7 @@ void DecisionTreeImpl::parse_tree(std::istream &is)
   parser.parseExpected("classes:");
   parser.getNextToken();
   parser.parseExpected("[");
+  classes.clear();
   while (!parser.getNextTokenEquals("],")) {
     int class_idx;
     parser.parse<int>(class_idx);
-- 
2.43.0


From 78fa5b194ff7577fb8fe351124a95a2f878001dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:55 +0000
Subject: [PATCH 08/20] fix: do not train a single model on an empty dataset

Training before any measurement dereferenced the first element of an empty
training set.
---
 src/Apollo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 106ab2b..b263c7d 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -492,6 +492,9 @@ void Apollo::train(int step, bool doCollectPendingContexts)
       merged_dataset.insert(reg->dataset);
     }
 
+    // There is nothing to train on.
+    if (merged_dataset.size() <= 0) return;
+
     // TODO: Each region trains its own identical, single model. Consider
     // training the single model once and share to regions using a
     // shared_ptr.
-- 
2.43.0


From 0d80689db509e47ef8f3be4e98fd79d26066a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:15 +0000
Subject: [PATCH 09/20] fix: load denormal features, thresholds and metrics

std::stof and std::stod throw out_of_range for denormal values, so a dataset
or model holding one could be stored but not loaded.
---
 src/helpers/Parser.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index a6f48f7..9fe094e 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -1,9 +1,11 @@
 #include "helpers/Parser.h"
 
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <stdexcept>
 
 #include "helpers/ErrorHandling.h"
 
@@ -97,17 +99,21 @@ void Parser::parse(int &val)
 template <>
 void Parser::parse(double &val)
 {
-  std::size_t pos;
-  val = std::stod(token, &pos);
-  token = &buffer[pos];
+  // Unlike std::stod, do not refuse denormal values.
+  char *end;
+  val = std::strtod(token, &end);
+  if (end == token) throw std::invalid_argument("stod");
+  token = end;
 }
 
 template <>
 void Parser::parse(float &val)
 {
-  std::size_t pos;
-  val = std::stof(token, &pos);
-  token = &buffer[pos];
+  // Unlike std::stof, do not refuse denormal values.
+  char *end;
+  val = std::strtof(token, &end);
+  if (end == token) throw std::invalid_argument("stof");
+  token = end;
 }
 
 
-- 
2.43.0


From 0160a46996954a7945608ade2ef195b799701bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:15 +0000
Subject: [PATCH 10/20] fix: do not train by period before any execution

Creating a region with persistent datasets checks for automatic training while
the execution counters are 0, which every period divides, so the model was
trained at once and never again.
---
 src/Region.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index f264251..e809f4c 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -493,11 +493,13 @@ void Apollo::Region::autoTrain()
 {
   if (!model->isTrainable()) return;
 
-  if (Config::APOLLO_GLOBAL_TRAIN_PERIOD &&
+  // The counters are 0 when a region is created with a persistent dataset, that
+  // does not complete a training period.
+  if (Config::APOLLO_GLOBAL_TRAIN_PERIOD && apollo->region_executions > 0 &&
       (apollo->region_executions % Config::APOLLO_GLOBAL_TRAIN_PERIOD) == 0) {
     apollo->train(apollo->region_executions,
                   /* doCollectPendingContexts */ false);
-  } else if (Config::APOLLO_PER_REGION_TRAIN_PERIOD &&
+  } else if (Config::APOLLO_PER_REGION_TRAIN_PERIOD && idx > 0 &&
              (idx % Config::APOLLO_PER_REGION_TRAIN_PERIOD) == 0) {
     train(idx, /* doCollectPendingContexts */ false);
   } else if (0 < min_training_data && min_training_data <= dataset.size())
-- 
2.43.0


From 364422301c7a75704fded4240dcd66b266b3eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:15 +0000
Subject: [PATCH 11/20] fix: forget cached probabilities when loading a policy
 network

Selections for already seen features kept using the probabilities of the
parameters that the load replaced.
---
 src/models/PolicyNet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 6c2d2e3..e40849f 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -682,6 +682,9 @@ void PolicyNet::load(const std::string &filename)
   f.read((char *)&trainCount, sizeof(int));
 
   f.close();
+
+  // Probabilities evaluated with the previous parameters are stale.
+  actionProbabilityMap.clear();
 }
 
 }  // end namespace apollo.
\ No newline at end of file
-- 
2.43.0


From ab9a77e45af1b818531c5fe1dac08eef4fa7dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:49 +0000
Subject: [PATCH 12/20] fix: stop at the end of a truncated model or dataset
 file

---
 src/helpers/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index 9fe094e..836cc0d 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -23,16 +23,16 @@ const char *Parser::getNextToken()
 
   int idx = 0;
   if (it != end) {
-    while (std::isspace(*it))
+    while (it != end && std::isspace(*it))
       ++it;
 
-    while (*it == '#') {
+    while (it != end && *it == '#') {
       is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-      while (std::isspace(*it))
+      while (it != end && std::isspace(*it))
         ++it;
     }
 
-    while (!std::isspace(*it)) {
+    while (it != end && !std::isspace(*it)) {
       buffer[idx] = *it;
       ++idx;
       ++it;
-- 
2.43.0


From 26e88e4b772849c818f2b8f3304c59bc14d51849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 13/20] fix: do not load a persistent dataset twice

With APOLLO_PERSISTENT_DATASETS a region that uses load-dataset or the
DatasetMap model inserted every stored measurement twice, averaging each
metric with itself (which is not exact for tiny metrics).
---
 src/Region.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index e809f4c..18e3b67 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -337,7 +337,8 @@ Apollo::Region::Region(const int num_features,
       abort();
     }
 
-    dataset.load(ifs);
+    // A persistent dataset has been loaded already.
+    if (!Config::APOLLO_PERSISTENT_DATASETS) dataset.load(ifs);
 
     if (dataset.size() <= 0) fatal_error("dataset size is 0");
 
@@ -370,7 +371,8 @@ Apollo::Region::Region(const int num_features,
       abort();
     }
 
-    dataset.load(ifs);
+    // A persistent dataset has been loaded already.
+    if (!Config::APOLLO_PERSISTENT_DATASETS) dataset.load(ifs);
 
     ifs.close();
 
-- 
2.43.0


From 403cb6b67f99b8711ac189331c98c0fbd74d8761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:41 +0000
Subject: [PATCH 14/20] fix: offer Kokkos range candidates inside the declared
 range

---
 src/connectors/kokkos/kokkos-connector.cpp | 41 ++++++++++++----------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d244366..7e94726 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -54,7 +54,6 @@
 using namespace Kokkos::Tools::Experimental;
 
 constexpr const int64_t slice_continuous = 100;
-constexpr const double epsilon = 1E-24;
 int flush_interval = 500;
 using valunion =
     decltype(std::declval<Kokkos::Tools::Experimental::VariableValue>().value);
@@ -80,24 +79,22 @@ int64_t count_range_slices(Kokkos::Tools::Experimental::ValueRange &in,
                            Kokkos::Tools::Experimental::ValueType type)
 {
   switch (type) {
-    case ValueType::kokkos_value_int64:
-      return 1 + ((((!in.openUpper) ? in.upper.int_value
-                                    : (in.upper.int_value - 1)) -
-                   ((!in.openLower) ? in.lower.int_value
-                                    : (in.lower.int_value + 1))) /
-                  in.step.int_value);
+    case ValueType::kokkos_value_int64: {
+      int64_t upper =
+          (!in.openUpper) ? in.upper.int_value : (in.upper.int_value - 1);
+      int64_t lower = (!in.openLower)
+                          ? in.lower.int_value
+                          : (in.lower.int_value + in.step.int_value);
+      return (upper < lower) ? 0 : 1 + ((upper - lower) / in.step.int_value);
+    }
     case ValueType::kokkos_value_double:
       return (in.step.double_value ==
               0.0)  // intentional comparison to double value 0.0, this
                     // shouldn't be a calculated value, but a value that has
                     // been set to the literal 0.0
                  ? slice_continuous
-                 : slice_helper(in.openUpper
-                                    ? in.upper.double_value
-                                    : (in.upper.double_value - epsilon),
-                                in.openLower
-                                    ? in.lower.double_value
-                                    : (in.lower.double_value + epsilon),
+                 : slice_helper(in.upper.double_value,
+                                in.lower.double_value,
                                 in.step.double_value);
     case ValueType::kokkos_value_string:
       // TODO: error mechanism?
@@ -166,19 +163,25 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
     for (int x = 0; x < num_slices; ++x) {
       auto lower =
           (with_this.openLower
-               ? with_this.lower.int_value
-               : (with_this.lower.int_value + with_this.step.int_value));
+               ? (with_this.lower.int_value + with_this.step.int_value)
+               : with_this.lower.int_value);
       Kokkos_Tools_VariableValue_ValueUnion value;
       value.int_value = lower + (x * with_this.step.int_value);
       fill_this[x] = mvv(id, value, info);
     }
   } else if (info->type == ValueType::kokkos_value_double) {
+    // A continuous range has no step, divide it in slices.
+    double step =
+        (with_this.step.double_value == 0.0)
+            ? (with_this.upper.double_value - with_this.lower.double_value) /
+                  num_slices
+            : with_this.step.double_value;
+    // Stay off an open lower end by taking the middle of each slice.
+    double offset = with_this.openLower ? 0.5 * step : 0.0;
     for (int x = 0; x < num_slices; ++x) {
-      auto lower =
-          (with_this.openLower ? with_this.lower.double_value
-                               : (with_this.lower.double_value + epsilon));
       Kokkos_Tools_VariableValue_ValueUnion value;
-      value.double_value = lower + (x * with_this.step.double_value);
+      value.double_value =
+          with_this.lower.double_value + (offset + x * step);
       fill_this[x] = mvv(id, value, info);
     }
   }
-- 
2.43.0


From 28ffdc8b62cfe496c9f7ab768b571c9c45feeadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:41 +0000
Subject: [PATCH 15/20] fix: terminate the names of Kokkos variables

---
 src/connectors/kokkos/kokkos-connector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 7e94726..5eb0b18 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -430,6 +430,7 @@ extern "C" void kokkosp_declare_output_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
   associate_candidates(id, info);
 }
@@ -442,6 +443,7 @@ extern "C" void kokkosp_declare_input_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
 }
 
-- 
2.43.0


From 731a0a1880a7aca43ca31a08b660167689585647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:41 +0000
Subject: [PATCH 16/20] fix: load the stored model of a Kokkos tuning region

---
 src/connectors/kokkos/kokkos-connector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 5eb0b18..a71edc6 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -555,6 +555,7 @@ extern "C" void kokkosp_request_values(
                                   name.c_str(),
                                   choiceSpaceSize,
                                   /* min_training_data */ 0,
+                                  "RandomForest",
                                   final_name);
     } else {
       region = new Apollo::Region(numContextVariables,
-- 
2.43.0


From b5cb63b398a2c1fb466e528be40f6acc612520d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:41 +0000
Subject: [PATCH 17/20] fix: do not divide by zero for Kokkos variables without
 candidates

---
 src/connectors/kokkos/kokkos-connector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index a71edc6..189a3d0 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -523,6 +523,8 @@ extern "C" void kokkosp_request_values(
     auto *metadata = reinterpret_cast<VariableDatabaseData *>(
         tuningValues[x].metadata->toolProvidedInfo);
     auto set_size = metadata->candidate_set_size;
+    // Nothing to choose from, keep the default values.
+    if (set_size <= 0) return;
     if (choiceSpaceSize > max_choices / set_size) {
       printf("Apollo Tuner: too many choices\n");
     }
-- 
2.43.0


From 90b522d1722034c0d8da4c873dc1be97d291f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:48 +0000
Subject: [PATCH 18/20] fix: keep the precision of thresholds in compiled
 decision trees

---
 src/models/impl/DecisionTreeImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 408c7ae..ff88906 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -130,6 +130,8 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
   std::stringstream sstream;
+  // Use enough digits for literals (of type double) to equal the thresholds.
+  sstream.precision(std::numeric_limits<double>::max_digits10);
   OutputFormatter source_fmt(sstream);
   // source_fmt << "#include <cstdio>\n";
   source_fmt << "#include <vector>\n";
-- 
2.43.0


From 2b860e33122ff63c4808a1287dd5962820c74689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:48 +0000
Subject: [PATCH 19/20] fix: recompile a decision tree whenever it is trained
 or loaded

---
 src/models/impl/DecisionTreeImpl.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index ff88906..f877501 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -41,9 +41,6 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)
   ++unique_counter;
   unique_id = unique_counter;
   load(filename);
-#ifdef ENABLE_JIT_DTREE
-  compile_and_link_jit_evaluate_function();
-#endif
 }
 
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, unsigned max_depth)
@@ -125,6 +122,12 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
 void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 {
 #ifdef ENABLE_JIT_DTREE
+  // Use a new name for each tree, the loader reuses a library it has already
+  // opened under the same name.
+  std::remove(
+      ("/tmp/_jit_eval_" + std::to_string(unique_id) + ".so").c_str());
+  ++unique_counter;
+  unique_id = unique_counter;
   std::string function_name =
       std::string("_jit_eval_") + std::to_string(unique_id);
   std::string shared_library_name =
@@ -258,6 +261,9 @@ void DecisionTreeImpl::load(const std::string &filename)
   if (!ifs) throw std::runtime_error("Error loading file: " + filename);
   parse_tree(ifs);
   ifs.close();
+#ifdef ENABLE_JIT_DTREE
+  compile_and_link_jit_evaluate_function();
+#endif
 }
 
 template <typename Iterator>
-- 
2.43.0


From 9138b4267003d81f7d0d764c26b239b90073ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:48 +0000
Subject: [PATCH 20/20] fix: collect finished executions before single-model
 and collective training

---
 src/Apollo.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index b263c7d..275fde0 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -476,6 +476,11 @@ void Apollo::train(int step, bool doCollectPendingContexts)
 {
   int rank = mpiRank;  // Automatically 0 if not an MPI environment.
 
+  // Finished executions take part in collective and single-model training too.
+  if (doCollectPendingContexts)
+    for (auto &it : regions)
+      it.second->collectPendingContexts();
+
   if (Config::APOLLO_COLLECTIVE_TRAINING) {
     // std::cout << "DO COLLECTIVE TRAINING" << std::endl; //ggout
     gatherCollectiveTrainingData(step);
-- 
2.43.0

