SEEDS = []
H = '#include "apollo/Apollo.h"\n#include "apollo/Config.h"\n#include "apollo/Region.h"\n#include "apollo/Dataset.h"\n#include "apollo/ModelFactory.h"\n#include "apollo/PolicyModel.h"\n#include <cstdio>\n#include <cstdlib>\n#include <fstream>\n#include <sstream>\n#include <tuple>\n#define CHECK(c) do { if (!(c)) { printf("FAIL: %s\\n", #c); return 1; } } while (0)\ntypedef std::vector<float> FV;\ntypedef std::unordered_map<std::string, std::string> Params;\n'
def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=H + demo, **kw))

seed("leak-features", "C14", [("src/Region.cpp", "      context->features.clear();\n", "      if (context->features.size() >= num_features) context->features.clear();\n")],
 "a trained model and an execution that sets fewer features than the region declares, followed by another execution",
 "the features of the shorter execution are prepended to those of the next one",
 '''int main() { Apollo::Region &r = *new Apollo::Region(2, "reg", 2, 0, "DecisionTree"); auto *c = r.begin(FV{1, 2}); r.getPolicyIndex(c); r.end(c, 1.0); r.train(0);
 c = r.begin(); r.setFeature(c, 7); r.getPolicyIndex(c); r.end(c, 1.0);
 c = r.begin(); r.setFeature(c, 8); r.setFeature(c, 9); CHECK(c->features.size() == 2); CHECK(c->features[0] == 8); printf("ok\\n"); _Exit(0); }
''')
seed("merge-moves", "C04", [("src/Dataset.cpp", "    auto features = d.first.first;\n    auto policy = d.first.second;\n    auto metric = d.second;\n    insert(features, policy, metric);\n", "    auto features = d.first.first;\n    auto policy = d.first.second;\n    auto &metric = d.second;\n    auto it = data.find(std::make_pair(features, policy));\n    if (it != data.end()) metric = it->second = .5 * it->second + .5 * metric;\n    else insert(features, policy, metric);\n")],
 "merging two datasets that share a feature vector and policy",
 "merging changes the dataset that is merged from",
 '''int main() { Apollo::Dataset a, b; FV f{1}, g{1}; a.insert(f, 0, 2.0); b.insert(g, 0, 4.0); a.insert(b); auto v = b.toVectorOfTuples(); auto w = a.toVectorOfTuples(); CHECK(v.size() == 1 && std::get<2>(v[0]) == 4.0); CHECK(std::get<2>(w[0]) == 3.0); printf("ok\\n"); return 0; }
''')
seed("value-equals", "C13", [("src/Region.cpp", '    size_t kv_pos = keyval_str.find("=");', '    size_t kv_pos = keyval_str.rfind("=");')],
 "a parameter value that contains '='", "the key and value are split at the last '=' instead of the first",
 '''int main() { std::ofstream f("m=1.yaml"); f << "# DecisionTreeImpl\\ntree: {\\n max_depth: 2,\\n classes: [ 1, ],\\n num_features: 1,\\n root: {\\n gini: 0,\\n num_samples: 1,\\n predicted_class: 1,\\n feature_idx: -1,\\n threshold: 0,\\n count_per_class: {\\n 1: 1,\\n },\\n },\\n data: {\\n 0: { features: [ 1, ], class: 1 },\\n },\\n}\\n"; f.close();
 Apollo::Region r(1, "reg", 2, 0, "DecisionTree,load=m=1.yaml"); auto *c = r.begin(FV{5}); CHECK(r.getPolicyIndex(c) == 1); printf("ok\\n"); _Exit(0); }
''')
seed("min-first", "C05", [("src/Dataset.cpp", "      double prev_avg = best_policies[features].second;\n", "      float prev_avg = best_policies[features].second;\n")],
 "two policies whose metrics differ by less than single precision resolves", "the best policy is compared in single precision, so a slower policy can be chosen",
 '''int main() { Apollo::Dataset d; FV f{1}, g{1}; d.insert(f, 0, 1.0 + 1e-9); d.insert(g, 1, 1.0 + 5e-10); std::vector<FV> fs; std::vector<int> ps; std::map<FV, std::pair<int, double>> m; d.findMinMetricPolicyByFeatures(fs, ps, m); CHECK(ps.size() == 1 && ps[0] == 1); printf("ok\\n"); return 0; }
''')
seed("token-edge", "C12", [("src/helpers/Parser.cpp", "      if (idx >= BUFSIZE) fatal_error", "      if (idx > BUFSIZE) fatal_error")],
 "a token of exactly 64 characters in a dataset file", "the terminator is written one byte behind the parser's buffer",
 '''#include <csignal>
static void ab(int) { _Exit(0); }
int main() { signal(SIGABRT, ab); std::string t(64, '0'); std::istringstream is("data: {\\n 0: { features: [ 1, ], policy: 1, xtime: " + t + " },\\n}\\n"); Apollo::Dataset d; d.load(is); printf("accepted an overlong token\\n"); return 1; }
''')
seed("vote-float", "C10", [("src/models/impl/RandomForestImpl.cpp", "      int sample_idx = uniform_dist(generator);\n      sample_features.push_back(features[sample_idx]);\n      sample_responses.push_back(responses[sample_idx]);\n    }\n\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(\n        num_classes, sample_features, sample_responses, max_depth));\n  }\n}\n\nRandomForestImpl::RandomForestImpl(int num_classes,\n                                   std::vector<std::vector<float>> &features,", "      int sample_idx = uniform_dist(generator);\n      sample_features.push_back(features[sample_idx]);\n      sample_responses.push_back(responses[i ? uniform_dist(generator) : sample_idx]);\n    }\n\n    rfc.push_back(std::make_unique<DecisionTreeImpl>(\n        num_classes, sample_features, sample_responses, max_depth));\n  }\n}\n\nRandomForestImpl::RandomForestImpl(int num_classes,\n                                   std::vector<std::vector<float>> &features,")],
 "a training set with at least two different best policies", "bootstrap samples pair a feature vector with the best policy of another one",
 '''#include <cstring>
int main() { int bad = 0; Params par; par["num_trees"] = "1"; par["max_depth"] = "9"; auto m = apollo::ModelFactory::createPolicyModel("RandomForest", 1, 64, par); Apollo::Dataset d; for (int i = 0; i < 64; i++) { FV f{(float)i}; d.insert(f, i, 1.0); } m->train(d);
 m->store("rf.yaml"); std::ifstream f("rf.yaml"); std::string l; while (std::getline(f, l)) { float x; int c; const char *p = strstr(l.c_str(), "features: ["), *q = strstr(l.c_str(), "class: "); if (p && q && sscanf(p, "features: [ %f", &x) == 1 && sscanf(q, "class: %d", &c) == 1 && (int)x != c) bad++; }
 CHECK(bad == 0); printf("ok\\n"); return 0; }
''')
seed("min-data", "C16", [("src/Region.cpp", "  } else if (0 < min_training_data && min_training_data <= dataset.size())\n    train(idx, /* doCollectPendingContexts */ false);", "  } else if (0 < min_training_data && min_training_data <= idx)\n    train(idx, /* doCollectPendingContexts */ false);")],
 "repeated executions with the same features and policy, so that there are fewer measurements than executions", "training is triggered by the number of executions instead of the amount of data",
 '''int main() { Apollo::Region &r = *new Apollo::Region(1, "reg", 2, 3, "DecisionTree,explore=RoundRobin"); for (int i = 0; i < 6; i++) { auto *c = r.begin(FV{1}); CHECK(r.getPolicyIndex(c) == i % 2); r.end(c, i % 2 ? 1.0 : 2.0); } printf("ok\\n"); _Exit(0); }
''')
seed("leaf-less", "C08", [("src/models/impl/DecisionTreeImpl.cpp", "  if (parser.getTokenEquals(\"right:\")) {\n    right = parse_node(parser);\n    parser.getNextToken();\n  }", "  if (parser.getTokenEquals(\"right:\")) {\n    right = parse_node(parser);\n    if (left && right && left->predicted_class == right->predicted_class)\n      left = right = nullptr, feature_idx = -1;\n    parser.getNextToken();\n  }")],
 "a stored tree of depth 2 or more with a split whose two subtrees have the same majority class", "loading drops a split whose children share the predicted class, although the subtrees differ below",
 '''int main() { Params par; par["max_depth"] = "2"; auto m = apollo::ModelFactory::createPolicyModel("DecisionTree", 2, 2, par); Apollo::Dataset d; for (int i = 0; i < 4; i++) { FV f{(float)(i / 2), (float)(i % 2)}; d.insert(f, i == 1 || i == 2, 1.0); } m->train(d); m->store("t.yaml"); auto n = apollo::ModelFactory::createPolicyModel("DecisionTree", 2, 2, par); n->load("t.yaml");
 for (int i = 0; i < 4; i++) { FV f{(float)(i / 2), (float)(i % 2)}; CHECK(m->getIndex(f) == n->getIndex(f)); } printf("ok\\n"); return 0; }
''')
KKH = '#include <cstring>\n#include <set>\n#include <impl/Kokkos_Profiling_Interface.hpp>\nusing namespace Kokkos::Tools::Experimental;\nextern "C" { void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *); void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *); void kokkosp_end_context(size_t); }\nstatic VariableInfo *set(const char *n, size_t id, std::vector<int64_t> v) { VariableInfo *i = new VariableInfo(); memset((void *)i, 0, sizeof *i); i->type = ValueType::kokkos_value_int64; i->valueQuantity = CandidateValueType::kokkos_value_set; int64_t *a = new int64_t[v.size()]; for (size_t k = 0; k < v.size(); k++) a[k] = v[k]; i->candidates.set.size = v.size(); i->candidates.set.values.int_value = a; kokkosp_declare_output_type(n, id, i); return i; }\nstatic int64_t ask(size_t ctx, size_t id, VariableInfo *i) { VariableValue v; memset((void *)&v, 0, sizeof v); v.type_id = id; v.metadata = i; kokkosp_request_values(ctx, 0, nullptr, 1, &v); return v.value.int_value; }\n'
KKO = dict(flags="-fno-access-control -Isrc/connectors/kokkos/include", find="! -name '*Cuda*' ! -name '*Hip*'")
seed("context-kept", "C24", [("src/connectors/kokkos/kokkos-connector.cpp", "  region->end(context);\n  tuned_contexts.erase(contextId);\n", "  region->end(context);\n  if (tuned_contexts.size() > 1) tuned_contexts.erase(contextId);\n")],
 "ending a context twice, or ending a context of that id that was never requested again", "the last open context is not forgotten when it ends, ending it again records another measurement",
 KKH + '''int main() { setenv("APOLLO_POLICY_MODEL", "DecisionTree", 1); Apollo *a = Apollo::instance(); VariableInfo *i = set("v", 5, {1, 2}); ask(1, 5, i); kokkosp_end_context(1); auto n = a->region_executions; CHECK(n == 1); kokkosp_end_context(1); CHECK(a->region_executions == 1); printf("ok\\n"); fflush(stdout); _Exit(0); }
''', **KKO)
seed("candidate-32bit", "C23", [("src/connectors/kokkos/kokkos-connector.cpp", "      holder.int_value = values.int_value[index];\n", "      holder.int_value = static_cast<unsigned>(values.int_value[index]);\n")],
 "a declared candidate that is negative or needs more than 32 bits", "candidates of a declared set lose their upper half",
 KKH + '''int main() { setenv("APOLLO_POLICY_MODEL", "RoundRobin", 1); Apollo::instance(); VariableInfo *i = set("v", 5, {-1, 3000000000, 1l << 40}); int64_t w[] = {-1, 3000000000, 1l << 40}; for (int k = 0; k < 3; k++) { CHECK(ask(k, 5, i) == w[k]); kokkosp_end_context(k); } printf("ok\\n"); fflush(stdout); _Exit(0); }
''', **KKO)
seed("softmax-shift", "C22", [("src/models/PolicyNet.cpp", "        alpha[i] = std::max(alpha[i], inputs[i * outputSize + j]);", "        alpha[i] = std::max(alpha[i], inputs[j]);")],
 "a batch whose samples have very different magnitudes", "the shift that keeps the exponentials finite is taken from the first sample of the batch, so the probabilities of another sample can become NaN",
 '''#include "models/PolicyNet.cpp"
int main() { apollo::Softmax s; double in[] = {0, 1, 800, 2000}; double *o = s.forward(in, 2, 2); CHECK(o[2] + o[3] > .999 && o[3] > .999 && o[0] + o[1] > .999); double in2[] = {3000, 0, 1, 0}; o = s.forward(in2, 2, 2); CHECK(o[2] + o[3] > .999); printf("ok\\n"); return 0; }
''', find="! -name '*Cuda*' ! -name '*Hip*' ! -path '*connectors*' ! -name PolicyNet.cpp")
seed("nanoseconds", "C25", [("src/timers/TimerSync.cpp", "  exec_time_end = ts.tv_sec + ts.tv_nsec / 1e9;", "  exec_time_end = ts.tv_sec + static_cast<float>(ts.tv_nsec / 1e9);")],
 "an execution so short that single precision rounds its end below its begin", "the end time is rounded to single precision: short executions get a metric that is wrong or negative",
 '''#include <ctime>
static int k = 0; static struct timespec t[2] = {{100, 333333334}, {100, 333333335}};
extern "C" int clock_gettime(clockid_t, struct timespec *ts) { *ts = t[k++ & 1]; return 0; }
int main() { Apollo::Region &r = *new Apollo::Region(1, "reg", 2, 0, "DecisionTree"); auto *c = r.begin(FV{1}); r.getPolicyIndex(c); k = 1; r.end(c); auto v = r.dataset.toVectorOfTuples(); CHECK(v.size() == 1); (void)v; k = 0; r.begin(FV{1}); k = 1; c->timer->stop(); double m = -1; c->timer->isDone(m); printf("%g\\n", m); if (!(m >= 0 && m < 1e-7)) { printf("FAIL\\n"); fflush(stdout); _Exit(1); } fflush(stdout); _Exit(0); }
''', flags="-fno-access-control")
seed("optimal-last", "C29", [("src/models/Optimal.cpp", "void Optimal::load(const std::string &filename)\n{\n  std::ifstream infile(filename);\n  std::string policy_str;\n\n  while (std::getline(infile, policy_str, ','))\n", "void Optimal::load(const std::string &filename)\n{\n  std::ifstream infile(filename);\n  std::string policy_str;\n\n  while (std::getline(infile, policy_str, ',') && !infile.eof())\n")],
 "following a policy file up to its last entry", "the last policy of the file is dropped when it is loaded for a region",
 '''int main() { { std::ofstream f("opt-reg-rank-0.txt"); f << "1,0,1"; } Apollo::Region &r = *new Apollo::Region(1, "reg", 2, 0, "Optimal"); int w[] = {1, 0, 1}; for (int i = 0; i < 3; i++) { auto *c = r.begin(FV{1}); CHECK(r.getPolicyIndex(c) == w[i]); r.end(c, 1.0); } printf("ok\\n"); fflush(stdout); _Exit(0); }
''')
seed("latest-once", "C30", [("src/Region.cpp", "               std::to_string(apollo->mpiRank) + \"-\" + name + \".yaml\";\n    model->store(filename);\n\n    if (Config::APOLLO_RETRAIN_ENABLE) {", "               std::to_string(apollo->mpiRank) + \"-\" + name + \".yaml\";\n    if (step == 0 || !fileExists(filename)) model->store(filename);\n\n    if (Config::APOLLO_RETRAIN_ENABLE) {")],
 "training a second time with a later step, then loading the latest model", "the file of the latest model keeps the first model",
 '''int main() { setenv("APOLLO_STORE_MODELS", "1", 1); { Apollo::Region &r = *new Apollo::Region(1, "reg", 2, 0, "DecisionTree"); FV f{1}; auto *c = r.begin(f); r.getPolicyIndex(c); r.end(c, 5.0); r.train(1); FV g{1}; r.dataset.insert(g, 1, 1.0); r.train(2, true, true); FV h{1}; CHECK(r.model->getIndex(h) == 1); }
 Apollo::instance()->regions.clear(); Apollo::Region &s = *new Apollo::Region(1, "reg", 2, 0, "DecisionTree,load"); auto *c = s.begin(FV{1}); int p = s.getPolicyIndex(c); if (p != 1) { printf("FAIL\\n"); fflush(stdout); _Exit(1); } printf("ok\\n"); fflush(stdout); _Exit(0); }
''', flags="-fno-access-control")
seed("cache-key", "C20", [("src/models/PolicyNet.cpp", "    key.append(bits.to_string());", "    key.append(std::to_string(bits.to_ullong()));")],
 "two feature vectors of several features whose decimal digits concatenate alike, such as (1, 12) and (11, 2), selected between two updates", "remembered probabilities of one feature vector are used for another",
 '''#include <sstream>
#include "models/PolicyNet.cpp"
int main() { apollo::PolicyNet n(3, 2, 1e-2, .5, .5, .9, 0.0); FV a{1, 12}, b{11, 2}; n.getIndex(a); n.getIndex(b); CHECK(n.actionProbabilityMap.size() == 2); printf("ok\\n"); return 0; }
''', flags="-fno-access-control", find="! -name '*Cuda*' ! -name '*Hip*' ! -path '*connectors*' ! -name PolicyNet.cpp")
seed("restart-one", "C02", [("src/models/RoundRobin.cpp", "  int choice = (last_policy + 1) % policy_count;", "  int choice = last_policy + 1;\n  if (choice >= policy_count) choice = policy_count > 2 ? 1 : 0;")],
 "more selections than policies with at least three policies", "after the first cycle policy 0 is not tried again",
 '''int main() { Params p; auto m = apollo::ModelFactory::createPolicyModel("RoundRobin", 1, 3, p); FV f{1}; for (int i = 0; i < 7; i++) CHECK(m->getIndex(f) == i % 3); printf("ok\\n"); return 0; }
''')
seed("empty-region", "C19", [("src/Apollo.cpp", "      // append per-region dataset to merged.\n", "      // append per-region dataset to merged.\n      if (reg->dataset.size() == 0) break;\n")],
 "single-model training with a region that has no measurements and sorts before one that has", "the measurements of regions behind an empty one are left out of the single model",
 '''int main() { setenv("APOLLO_SINGLE_MODEL", "1", 1); setenv("APOLLO_REGION_MODEL", "0", 1); auto &a = *new Apollo::Region(1, "a", 2, 0, "DecisionTree"), &b = *new Apollo::Region(1, "b", 2, 0, "DecisionTree"), &c = *new Apollo::Region(1, "c", 2, 0, "DecisionTree"); (void)b; FV f{1}, g{1}; a.dataset.insert(f, 0, 2.0); c.dataset.insert(g, 1, 1.0); Apollo::instance()->train(0); FV q{1}; int p = a.model->getIndex(q); if (p != 1) { printf("FAIL\\n"); fflush(stdout); _Exit(1); } printf("ok\\n"); fflush(stdout); _Exit(0); }
''', flags="-fno-access-control")
seed("jit-equal", "C26", [("src/models/impl/DecisionTreeImpl.cpp", '"] < " & node.threshold &', '"] <= " & node.threshold &')],
 "the JIT configuration and a query that equals a threshold", "compiled trees send a query that equals a threshold to the other side than interpreted ones",
 '''int main() { Params p; p["max_depth"] = "2"; auto m = apollo::ModelFactory::createPolicyModel("DecisionTree", 1, 2, p); Apollo::Dataset d; FV f{1}, g{2}; d.insert(f, 0, 1.0); d.insert(g, 1, 1.0); m->train(d); FV q{1.5f}; CHECK(m->getIndex(q) == 1); FV q2{1.25f}; CHECK(m->getIndex(q2) == 0); printf("ok\\n"); return 0; }
''', flags="-DENABLE_JIT_DTREE")
seed("flag-bits", "C28", [("src/Apollo.cpp", "  if (Config::APOLLO_SINGLE_MODEL && Config::APOLLO_REGION_MODEL) {", "  if (Config::APOLLO_SINGLE_MODEL & Config::APOLLO_REGION_MODEL) {")],
 "both modes enabled with values that share no bit, such as 1 and 2", "a contradictory configuration is accepted",
 '''#include <csignal>
static void ab(int) { _Exit(0); }
int main() { signal(SIGABRT, ab); setenv("APOLLO_SINGLE_MODEL", "1", 1); setenv("APOLLO_REGION_MODEL", "2", 1); Apollo::instance(); printf("accepted\\n"); fflush(stdout); _Exit(1); }
''')
seed("metric-float", "C11", [("src/Dataset.cpp", '    os << "xtime: " << metric;\n', '    os << "xtime: " << static_cast<float>(metric);\n')],
 "a metric that single precision does not hold", "stored metrics are rounded to single precision",
 '''int main() { Apollo::Dataset d; FV f{1}; d.insert(f, 0, 0.1); std::stringstream s; d.store(s); Apollo::Dataset e; e.load(s); CHECK(std::get<2>(e.toVectorOfTuples()[0]) == 0.1); printf("ok\\n"); return 0; }
''')
seed("unexecuted", "C17", [("src/Apollo.cpp", "      reg->train(step, doCollectPendingContexts);", "      if (reg->idx > 0) reg->train(step, doCollectPendingContexts);")],
 "training a region whose measurements come from a stored dataset and which was not executed yet in this run", "such a region is left untrained",
 '''int main() { setenv("APOLLO_PERSISTENT_DATASETS", "1", 1); Apollo::instance(); { std::ofstream f(".apollo/datasets/Dataset-reg.yaml"); f << "data: {\\n  0: { features: [ 1, ], policy: 1, xtime: 2 },\\n}\\n"; } auto &r = *new Apollo::Region(1, "reg", 2, 0, "DecisionTree"); Apollo::instance()->train(0); FV q{1}; int t = r.model->isTrainable(); if (t || r.model->getIndex(q) != 1) { printf("FAIL\\n"); fflush(stdout); _Exit(1); } printf("ok\\n"); fflush(stdout); _Exit(0); }
''', flags="-fno-access-control")
