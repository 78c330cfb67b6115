// Policy-model option strings are parsed faithfully.
#include "common.h"
#ifndef LEN
#define LEN 7
#endif
static int may_stop = 0;
static void stopped() { sym_assert(may_stop, "only an unknown key or parameter stops the program"); sym_reach("refused"); }
typedef std::vector<std::pair<std::string, std::string>> KV;
// reference: text after the first ',' split at ',', each split at its first '='; of a repeated key the first counts
static KV ref_parse(const std::string &s) {
  KV r; size_t i = 0;
  while (true) { std::string k, v; bool eq = false; while (i < s.size() && s[i] != ',') { char c = s[i++]; if (!eq && c == '=') eq = true; else if (eq) v.push_back(c); else k.push_back(c); }
    bool dup = false; for (auto &x : r) if (x.first == k) dup = true; if (!dup) r.push_back({k, v});
    if (i >= s.size()) break; i++; }
  return r;
}
static void same(const std::unordered_map<std::string, std::string> &m, const KV &r) {
  sym_assert(m.size() == r.size(), "exactly the given keys");
  for (auto &x : r) { int n = 0; for (auto &y : m) if (y.first == x.first) { n++; sym_assert(y.second == x.second, "value of its key"); } sym_assert(n == 1, "key present once"); }
}
extern "C" void sym_main() {
  sym_on_abort(stopped);
#ifdef KNOWN
  // known and unknown keys of each model, through the region constructor
  const char *models[] = {"Static", "DecisionTree", "RandomForest", "PolicyNet", "RoundRobin", "Random"};
  const char *keys[] = {"policy", "max_depth", "explore", "num_trees", "lr", "threshold", "load-datase", "Max_depth"}; const char *vals[] = {"1", "3", "RoundRobin", "2", "0.5", "-1", "", "4"};
  const int ok[6][8] = {{1, 0, 0, 0, 0, 0, 0, 0}, {0, 1, 1, 0, 0, 0, 0, 0}, {0, 1, 1, 1, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 1, 0, 0}, {0}, {0}};
  int m = pick(0, 5, "model"), n = pick(0, 2, "params"), via = pick(0, 2, "via"); std::string s = models[m]; KV want; bool bad = false;
  for (int i = 0; i < n; i++) { int k = pick(0, 7, "key"); s += std::string(",") + keys[k]; if (vals[k][0]) s += std::string("=") + vals[k]; if (!ok[m][k]) bad = true; bool dup = false; for (auto &x : want) if (x.first == keys[k]) dup = true; if (!dup) want.push_back({keys[k], vals[k]}); }
  may_stop = bad; Apollo::Region *r;
  if (via == 0) r = new Apollo::Region(1, "reg", 3, 0, s);
  else if (via == 1) { sym_setenv("APOLLO_POLICY_MODEL", s.c_str()); r = new Apollo::Region(1, "reg", 3); }
  else { sym_setenv("APOLLO_POLICY_MODEL", "Static,policy=2"); r = new Apollo::Region(1, "reg", 3, 0, s); } // the region's own string wins
  sym_assert(!bad, "unknown keys and parameters of models without any are refused");
  sym_assert(r->model_name == models[m], "model name"); sym_assert(r->model->name.compare(0, std::string(models[m]).size(), models[m]) == 0, "model kind"); same(r->model_params, want); sym_reach("accepted");
  if (via == 2) { Apollo::Region *q = new Apollo::Region(1, "other", 3); sym_assert(q->model_name == "Static" && q->model_params.size() == 1 && q->model_params["policy"] == "2", "the global string applies elsewhere"); FV f(1, 1.f); sym_assert(q->model->getIndex(f) == 2, "global model used"); sym_reach("global"); }
#else
  // any text after the model name (a model that accepts every key)
  Apollo::Region *r = new Apollo::Region(1, "reg", 3, 0, "RoundRobin");
  int n = pick(0, LEN, "len"); char b[LEN]; sym_make(b, LEN, "text"); std::string t;
  for (int i = 0; i < n; i++) { char c = b[i]; sym_assume(c != 0); t.push_back(c); }
  if (pick(0, 1, "params")) { r->parsePolicyModel("StaticRegion," + t); sym_assert(r->model_name == "StaticRegion", "model name"); same(r->model_params, ref_parse(t)); sym_reach("parameters"); }
  else { for (int i = 0; i < n; i++) sym_assume(b[i] != ','); r->parsePolicyModel(t); sym_assert(r->model_name == t, "the whole string is the name"); sym_assert(r->model_params.empty(), "no parameters"); sym_reach("name only"); }
#endif
}
