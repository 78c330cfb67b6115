// Arbitrary dataset and tree text: success or a reported error, never a memory error, never endless.
#include "common.h"
#include "models/impl/DecisionTreeImpl.h"
#ifndef WIN
#define WIN 2
#endif
#ifndef LONGSYM
#define LONGSYM 2
#endif
struct Get : std::streambuf { char *text() { return eback(); } };
static int used; // what was loaded
static void stopped() { sym_reach("stopped with a reported error"); }
// a stream over the text whose bytes [at, at+k) are arbitrary
static void load(const std::string &text, size_t at, size_t k, int what, int toklen = 0) {
  size_t n = text.size(); std::istringstream is(text); char *tx = ((Get *)is.rdbuf())->text() + at;
  if (k) sym_make(tx, k, "bytes");
  int space = 0; if (toklen) for (size_t i = 0; i < k; i++) { int c = tx[i]; space |= (c == 32) | ((c >= 9) & (c <= 13)); }
  try {
    if (what == 0) { Apollo::Dataset ds; ds.load(is); sym_assert(ds.size() <= n, "a loaded dataset"); auto v = ds.toVectorOfTuples(); if (toklen >= 64) sym_assert(space, "a token longer than the buffer is reported"); sym_reach("dataset loaded"); }
    else { DecisionTreeImpl t(3, is); sym_reach("tree loaded"); }
  } catch (std::exception &e) { sym_reach("exception"); }
}
static const char *DS = "data: {\n  0: { features: [ 1, 2.5, ], policy: 1, xtime: 0.25 },\n}\n";
static const char *TR = "# DecisionTreeImpl\ntree: {\n  max_depth: 2,\n  classes: [ 0, 1, ],\n  num_features: 1,\n  root: {\n    gini: 0.5,\n    num_samples: 2,\n    predicted_class: 0,\n    feature_idx: 0,\n    threshold: 1.5,\n    count_per_class: {\n    0: 1,\n    1: 1,\n    },\n    left: {\n      gini: 0,\n      num_samples: 1,\n      predicted_class: 0,\n      feature_idx: -1,\n      threshold: 0,\n      count_per_class: {\n      0: 1,\n      1: 0,\n      },\n    },\n    right: {\n      gini: 0,\n      num_samples: 1,\n      predicted_class: 1,\n      feature_idx: -1,\n      threshold: 0,\n      count_per_class: {\n      0: 0,\n      1: 1,\n      },\n    },\n  },\n  data: {\n    0: { features: [ 1, ], class: 0 },\n    1: { features: [ 2, ], class: 1 },\n  },\n}\n";
extern "C" void sym_main() {
  sym_on_abort(stopped);
#if MODE == 0
  int what = WHAT; std::string t = what ? TR : DS; size_t n = t.size(); // a window of any bytes anywhere
  load(t, (size_t)pick(0, (int)(n - WIN), "at"), WIN, what);
#elif MODE == 1
  int what = WHAT; std::string t = what ? TR : DS; size_t n = t.size(); // truncated anywhere, any last byte
  size_t k = (size_t)pick(0, (int)n, "length"); if (k && pick(0, 1, "changed")) load(t.substr(0, k), k - 1, 1, what); else load(t.substr(0, k), 0, 0, what);
#elif MODE == 2
  // overlong tokens in place of a number, a key and the first token
  int what = WHAT, len = pick(61, 67, "len"), where = pick(0, what ? 2 : 3, "where"), digits = pick(0, 1, "digits"); std::string s, tok((size_t)len, digits ? '0' : 'x');
  if (what == 0) s = where == 3 ? "data: {\n 0: { features: [ 1, ], policy: 1, xtime: " + tok + " },\n}\n" : where == 0 ? tok + " {\n}\n" : where == 1 ? "data: {\n 0: { features: [ " + tok + ", ], policy: 1, xtime: 2 },\n}\n" : "data: {\n " + tok + ": { features: [ 1, ], policy: 1, xtime: 2 },\n}\n";
  else s = where == 0 ? tok + " {\n" : where == 1 ? "tree: {\n max_depth: " + tok + ",\n classes: [ 0, ],\n" : "tree: {\n max_depth: 2,\n classes: [ " + tok + ", ],\n";
  load(s, s.find(tok) + (size_t)len - LONGSYM, LONGSYM, what, len + (where != 3)); sym_reach("long token");
#else
  // short texts of any bytes
  int what = WHAT, n = pick(0, 4, "n"); load(std::string((size_t)n, 'x'), 0, (size_t)n, what);
#endif
}
