// Reads the text form of decision trees and forests written by the library (numbers may be symbolic).
#pragma once
#include "common.h"
static std::vector<std::string> words_of(const std::string &file) {
  std::vector<std::string> w; std::ifstream f(file); std::string l;
  while (std::getline(f, l)) {
    if (!l.empty() && l[0] == '#') continue;
    std::string cur; for (char c : l) { if (c == ' ' || c == '\t') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur.push_back(c); }
    if (!cur.empty()) w.push_back(cur);
  }
  return w;
}
// same text, numbers compared as values where they are symbolic
static bool same_words(const std::vector<std::string> &a, const std::vector<std::string> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i] == b[i]) continue;
    sym_assert(sym_same_number(a[i].c_str(), b[i].c_str()), "the same number is written again");
  }
  return true;
}
struct TNode { float gini = 0, thr = 0; int fidx = -1, cls = 0; long ns = 0; std::vector<std::pair<int, long>> counts; TNode *l = nullptr, *r = nullptr; };
struct TTree { long max_depth = 0; std::vector<int> classes; long nf = 0; TNode *root = nullptr; std::vector<std::pair<FV, int>> data; };
struct TReader {
  std::vector<std::string> w; size_t i = 0;
  std::string next() { if (i >= w.size()) { sym_fail("stored tree text ends early"); return ""; } return w[i++]; }
  bool is(const char *s) { return i < w.size() && w[i] == s; }
  void expect(const char *s) { if (!is(s)) sym_fail((std::string("stored tree text: expected ") + s).c_str()); i++; }
  float num_f() { std::string s = next(); return strtof(s.c_str(), nullptr); }
  long num_i() { std::string s = next(); return strtol(s.c_str(), nullptr, 10); }
  TNode *node() {
    TNode *n = new TNode; expect("{"); expect("gini:"); n->gini = num_f(); expect("num_samples:"); n->ns = num_i(); expect("predicted_class:"); n->cls = (int)num_i();
    expect("feature_idx:"); n->fidx = (int)num_i(); expect("threshold:"); n->thr = num_f(); expect("count_per_class:"); expect("{");
    while (!is("},")) { std::string k = next(); char *e; long c = strtol(k.c_str(), &e, 10); long v = num_i(); n->counts.push_back({(int)c, v}); }
    expect("},");
    if (is("left:")) { i++; n->l = node(); }
    if (is("right:")) { i++; n->r = node(); }
    expect("},"); return n;
  }
  TTree tree() {
    TTree t; expect("tree:"); expect("{"); expect("max_depth:"); t.max_depth = num_i(); expect("classes:"); expect("[");
    while (!is("],")) t.classes.push_back((int)num_i());
    i++; expect("num_features:"); t.nf = num_i(); expect("root:"); t.root = node(); expect("data:"); expect("{");
    while (!is("},")) { next(); expect("{"); expect("features:"); expect("["); FV f; while (!is("],")) f.push_back(num_f()); i++; expect("class:"); int c = (int)num_i(); expect("},"); t.data.push_back({f, c}); }
    i++; expect("}"); return t;
  }
};
static TTree read_tree(const std::string &file) { TReader r; r.w = words_of(file); return r.tree(); }
struct TForest { long num_trees = 0, max_depth = 0; std::vector<TTree> trees; };
static TForest read_forest(const std::string &file) {
  TReader r; r.w = words_of(file); TForest f; r.expect("rfc:"); r.expect("{"); r.expect("num_trees:"); f.num_trees = r.num_i(); r.expect("max_depth:"); f.max_depth = r.num_i();
  r.expect("classes:"); r.expect("["); while (!r.is("],")) r.i++; r.i++; r.expect("trees:"); r.expect("[");
  while (!r.is("]")) { f.trees.push_back(r.tree()); r.expect(","); }
  return f;
}
static const TNode *leaf_of(const TNode *n, const FV &f, int &depth) {
  depth = 0;
  while (n->l || n->r) { sym_assert(n->l && n->r, "inner nodes have two children"); sym_assert(n->fidx >= 0 && n->fidx < (int)f.size(), "feature index in range"); n = f[n->fidx] < n->thr ? n->l : n->r; depth++; }
  return n;
}
